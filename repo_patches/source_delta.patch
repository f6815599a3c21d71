From 3cdbaab6220f0334d12e75e29504649ccc804053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:10 +0000
Subject: [PATCH 01/77] fix: patching an out-of-bounds list index fails instead
 of raising IndexError

---
 conda_recipe_manager/parser/_traverse.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/_traverse.py b/conda_recipe_manager/parser/_traverse.py
index f32167c..2b5a1af 100644
--- a/conda_recipe_manager/parser/_traverse.py
+++ b/conda_recipe_manager/parser/_traverse.py
@@ -144,7 +144,11 @@ def traverse_with_index(root: Node, path: StrStack) -> tuple[Optional[Node], int
 
     node = traverse(root, path)
     if node is not None and virt_idx >= 0:
-        phys_idx = remap_child_indices_virt_to_phys(node.children)[virt_idx]
+        idx_map = remap_child_indices_virt_to_phys(node.children)
+        # An out-of-bounds index has no physical position. It is up to the caller to reject it.
+        if virt_idx >= len(idx_map):
+            return node, virt_idx, INVALID_IDX
+        phys_idx = idx_map[virt_idx]
 
         # If the node in a list is a "Collection Element", we want return that node and not the parent that contains
         # the list. Collection Nodes are abstract containers that will contain the rest of
-- 
2.43.0


From d2b9aa90978803a8f1f26f29501eec7a06a4e556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:30 +0000
Subject: [PATCH 02/77] fix: patch add at the index of a mapping inserts before
 it instead of overwriting it

---
 conda_recipe_manager/parser/_traverse.py     |  5 -----
 conda_recipe_manager/parser/recipe_parser.py | 11 ++++++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/conda_recipe_manager/parser/_traverse.py b/conda_recipe_manager/parser/_traverse.py
index 2b5a1af..b48f79d 100644
--- a/conda_recipe_manager/parser/_traverse.py
+++ b/conda_recipe_manager/parser/_traverse.py
@@ -150,11 +150,6 @@ def traverse_with_index(root: Node, path: StrStack) -> tuple[Optional[Node], int
             return node, virt_idx, INVALID_IDX
         phys_idx = idx_map[virt_idx]
 
-        # If the node in a list is a "Collection Element", we want return that node and not the parent that contains
-        # the list. Collection Nodes are abstract containers that will contain the rest of
-        if node.children[phys_idx].is_collection_element():
-            return node.children[phys_idx], INVALID_IDX, INVALID_IDX
-
     return node, virt_idx, phys_idx
 
 
diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 19ce469..6d86883 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -301,10 +301,10 @@ class RecipeParser(RecipeReader):
 
         # Special case that only applies to `add`. The `-` character indicates the new element can be added to the end
         # of the list.
-        append_to_list = False
         if path_stack[0] == "-":
             path_stack.pop(0)
-            append_to_list = True
+            # The list being extended is the target itself, even if it happens to be a member of another list.
+            return traverse(self._root, path_stack), INVALID_IDX, INVALID_IDX, "", True
 
         path_stack_copy = path_stack.copy()
         node, virt_idx, phys_idx = traverse_with_index(self._root, path_stack)
@@ -312,11 +312,12 @@ class RecipeParser(RecipeReader):
         # allows us to create only 1 level in the path.
         path_to_create = ""
         # NOTE: Appending to a non-existent list is effectively adding a second level and disallowed by the RFC.
-        if node is None and not append_to_list:
+        if node is None:
             path_to_create = path_stack_copy.pop(0)
-            node, virt_idx, phys_idx = traverse_with_index(self._root, path_stack_copy)
+            # The containing object is the target itself, even if it happens to be a member of a list.
+            node, virt_idx, phys_idx = traverse(self._root, path_stack_copy), INVALID_IDX, INVALID_IDX
 
-        return node, virt_idx, phys_idx, path_to_create, append_to_list
+        return node, virt_idx, phys_idx, path_to_create, False
 
     def _patch_add(self, path_stack: StrStack, value: JsonType) -> bool:
         """
-- 
2.43.0


From e96a6c2531bb07bb3454f1d099694b69d9ebd86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:48 +0000
Subject: [PATCH 03/77] fix: get_value of a list member that is a mapping
 returns the mapping instead of raising or wrapping it

---
 conda_recipe_manager/parser/recipe_reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 782de49..5e7dc06 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -870,7 +870,9 @@ class RecipeReader(IsModifiable):
             # NOTE: Traversing the tree and generating our own data structures will be more efficient than rendering and
             # leveraging the YAML parser, BUT this method re-uses code and is easier to maintain.
             lst: list[str] = []
-            RecipeReader._render_tree(node, -1, lst)
+            # Collections that are list members must be rendered on their own, i.e. without the leading `- `.
+            target = Node(ROOT_NODE_VALUE, children=node.children) if node.is_collection_element() else node
+            RecipeReader._render_tree(target, -1, lst)
             return_value = "\n".join(lst)
 
         # Collection types are transformed into strings above and will need to be transformed into a proper data type.
-- 
2.43.0


From 09840d234febc5ce5b481193bff9aa5079ff307f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:23 +0000
Subject: [PATCH 04/77] fix: render_to_object supports lists of mappings under
 any key, top-level lists and top-level empty keys

---
 conda_recipe_manager/parser/recipe_reader.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 5e7dc06..783f894 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -757,14 +757,14 @@ class RecipeReader(IsModifiable):
                 elem_dict = {}
                 for element in child.children:
                     self._render_object_tree(element, replace_variables, elem_dict)
-                if len(data[key]) == 0:
+                if not data.get(key):
                     data[key] = []
                 data[key].append(elem_dict)
                 continue
 
             # List members accumulate values in a list
             if child.list_member_flag:
-                if key not in data:
+                if not data.get(key):
                     data[key] = []
                 data[key].append(value)
                 continue
@@ -795,7 +795,8 @@ class RecipeReader(IsModifiable):
         for child in self._root.children:
             if child.is_comment():
                 continue
-            data.setdefault(cast(str, child.value), {})
+            # Empty keys are interpreted to point to `None`
+            data.setdefault(cast(str, child.value), None if child.is_empty_key() else {})
             self._render_object_tree(child, replace_variables, data)
 
         return data
-- 
2.43.0


From 491672e03ec3268cc80dd0a3f23a13cb361293c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:43 +0000
Subject: [PATCH 05/77] fix: get_value keeps the list around a single
 non-string list member

---
 conda_recipe_manager/parser/recipe_reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 783f894..f36671f 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -864,6 +864,9 @@ class RecipeReader(IsModifiable):
                     return self._render_jinja_vars(multiline_str)
                 return cast(JsonType, yaml.load(multiline_str, Loader=SafeLoader))
             return_value = cast(Primitives, node.children[0].value)
+            # Lists containing 1 value are re-wrapped for strings below.
+            if node.children[0].list_member_flag and not isinstance(return_value, str):
+                return [return_value]
         # Leaf nodes can return their value directly
         elif node.is_leaf():
             return_value = cast(Primitives, node.value)
-- 
2.43.0


From 29e35f34d16ea26c923f3b1afa858a245640a109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:12 +0000
Subject: [PATCH 06/77] fix: render_to_object keeps empty keys of mappings
 found in lists

---
 conda_recipe_manager/parser/recipe_reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index f36671f..a8c5d5d 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -756,6 +756,9 @@ class RecipeReader(IsModifiable):
             if child.is_collection_element():
                 elem_dict = {}
                 for element in child.children:
+                    if element.is_empty_key():
+                        elem_dict[element.value] = None
+                        continue
                     self._render_object_tree(element, replace_variables, elem_dict)
                 if not data.get(key):
                     data[key] = []
-- 
2.43.0


From f65394fc5210202821af9b426c978027dac5ee86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:18 +0000
Subject: [PATCH 07/77] fix: reject patch additions that would mix keys, list
 members and values

---
 conda_recipe_manager/parser/recipe_parser.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 6d86883..cb02544 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -285,6 +285,23 @@ class RecipeParser(RecipeReader):
 
         return True
 
+    @staticmethod
+    def _can_contain(node: Node, is_list: bool) -> bool:
+        """
+        Indicates if a node can gain another member. Lists and mappings can not be mixed and values have no members.
+
+        :param node: Node that would contain the new member
+        :param is_list: True if the new member is a list member. False if the new member is a key.
+        :returns: True if the node can contain the new member. False otherwise.
+        """
+        if node.is_leaf() and not node.key_flag and not node.is_root():
+            return False
+        return all(
+            child.list_member_flag if is_list else child.key_flag and not child.list_member_flag
+            for child in node.children
+            if not child.is_comment()
+        )
+
     def _patch_add_find_target(self, path_stack: StrStack) -> tuple[Optional[Node], int, int, str, bool]:
         """
         Finds the target node of an `add()` operation, along with some supporting information.
@@ -336,6 +353,9 @@ class RecipeParser(RecipeReader):
 
         if not RecipeParser._is_valid_patch_node(node, virt_idx):
             return False
+        # Keys can only be added to mappings and members can only be appended to lists.
+        if (path_to_create or append_to_list) and not RecipeParser._can_contain(node, append_to_list):
+            return False
 
         # If we couldn't find 1 level in the path, ensure that we re-insert that as the "root" of the sub-tree we are
         # about to create.
-- 
2.43.0


From f353cd2f2654e2c49f2ca290ec379026fd9c5108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:38 +0000
Subject: [PATCH 08/77] fix: paths can not address a value by its content

---
 conda_recipe_manager/parser/_traverse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/_traverse.py b/conda_recipe_manager/parser/_traverse.py
index b48f79d..4405d8b 100644
--- a/conda_recipe_manager/parser/_traverse.py
+++ b/conda_recipe_manager/parser/_traverse.py
@@ -90,7 +90,8 @@ def _traverse_recurse(node: Node, path: StrStack) -> Optional[Node]:
 
     for child in node.children:
         # Remember: for nodes that represent part of the path, the "value" stored in the node is part of the path-name.
-        if child.value == path_part:
+        # Values (leaf nodes that are not keys) are never part of a path-name.
+        if child.value == path_part and (child.key_flag or not child.is_leaf()):
             path.pop()
             return _traverse_recurse(child, path)
     # Path not found
-- 
2.43.0


From 2ad3b3444f198b8612481fc7ef1ba502089225bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:46 +0000
Subject: [PATCH 09/77] fix: patch add accepts an index equal to the length of
 the list, as per RFC 6902

---
 conda_recipe_manager/parser/recipe_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index cb02544..30f048d 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -333,6 +333,9 @@ class RecipeParser(RecipeReader):
             path_to_create = path_stack_copy.pop(0)
             # The containing object is the target itself, even if it happens to be a member of a list.
             node, virt_idx, phys_idx = traverse(self._root, path_stack_copy), INVALID_IDX, INVALID_IDX
+        # As per the RFC, an index equal to the length of the list is the same as appending to the list.
+        elif virt_idx > INVALID_IDX and virt_idx == len(remap_child_indices_virt_to_phys(node.children)):
+            return node, INVALID_IDX, INVALID_IDX, "", True
 
         return node, virt_idx, phys_idx, path_to_create, False
 
-- 
2.43.0


From 9e5872d0d2b1ba9e6a4ce185124948dbc6f9c517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 10/77] fix: a failed patch move leaves the recipe unchanged

---
 conda_recipe_manager/parser/recipe_parser.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 30f048d..3ff6e3c 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -17,6 +17,7 @@
 
 from __future__ import annotations
 
+import copy
 import difflib
 import re
 from typing import Final, Optional, TypeGuard, cast
@@ -472,12 +473,19 @@ class RecipeParser(RecipeReader):
         except KeyError:
             return False
 
-        # Validate that `add` will succeed before we `remove` anything
-        node, virt_idx, _, _, _ = self._patch_add_find_target(path_stack.copy())
-        if not RecipeParser._is_valid_patch_node(node, virt_idx):
-            return False
-
-        return self._patch_remove(str_to_stack_path(value_from)) and self._patch_add(path_stack, original_value)
+        # Removing the original value can change what the target location means (or remove it entirely). If the value
+        # can't be added back, the recipe is restored so that no data is lost.
+        backup: Final[Node] = copy.deepcopy(self._root)
+        is_successful = False
+        try:
+            is_successful = self._patch_remove(str_to_stack_path(value_from)) and self._patch_add(
+                path_stack, original_value
+            )
+        finally:
+            if not is_successful:
+                self._root = backup
+                self._rebuild_selectors()
+        return is_successful
 
     def _patch_copy(self, path_stack: StrStack, value_from: str) -> bool:
         """
-- 
2.43.0


From 8c9fb0eb36dfdd36b2431c2afc52a90d590072d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:54 +0000
Subject: [PATCH 11/77] fix: replacing a value does not leave a stale selector
 or comment on its key

---
 conda_recipe_manager/parser/recipe_parser.py | 24 +++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 3ff6e3c..09b2631 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -37,7 +37,7 @@ from conda_recipe_manager.parser.enums import SelectorConflictMode
 from conda_recipe_manager.parser.exceptions import JsonPatchValidationException
 from conda_recipe_manager.parser.recipe_reader import RecipeReader
 from conda_recipe_manager.parser.selector_parser import SelectorParser
-from conda_recipe_manager.parser.types import JSON_PATCH_SCHEMA
+from conda_recipe_manager.parser.types import JSON_PATCH_SCHEMA, MultilineVariant
 from conda_recipe_manager.types import PRIMITIVES_TUPLE, JsonPatchType, JsonType
 
 
@@ -303,6 +303,24 @@ class RecipeParser(RecipeReader):
             if not child.is_comment()
         )
 
+    @staticmethod
+    def _replace_children(node: Node, new_children: list[Node]) -> None:
+        """
+        Replaces what a node contains.
+
+        :param node: Node to modify
+        :param new_children: Nodes to replace the existing children with
+        """
+        node.children = new_children
+        # A value on the same line as its key brings its own comment (or lack thereof). Both nodes on the line must
+        # agree, otherwise we would track selectors and comments that are not part of the recipe.
+        if (
+            node.is_single_key()
+            and not node.children[0].list_member_flag
+            and node.children[0].multiline_variant == MultilineVariant.NONE
+        ):
+            node.comment = node.children[0].comment
+
     def _patch_add_find_target(self, path_stack: StrStack) -> tuple[Optional[Node], int, int, str, bool]:
         """
         Finds the target node of an `add()` operation, along with some supporting information.
@@ -384,7 +402,7 @@ class RecipeParser(RecipeReader):
             node.children.extend(new_children)
         # NOTE from the RFC: "If the member already exists, it is replaced by the specified value."
         else:
-            node.children = new_children
+            RecipeParser._replace_children(node, new_children)
 
         return True
 
@@ -452,7 +470,7 @@ class RecipeParser(RecipeReader):
 
         # Leafs that represent values/paths of values can evict all children, and be replaced with new children, derived
         # from a new tree of values.
-        node.children = new_children
+        RecipeParser._replace_children(node, new_children)
         return True
 
     def _patch_move(self, path_stack: StrStack, value_from: str) -> bool:
-- 
2.43.0


From 5bc9f8195e214e28484ed5a16c049081d2febfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:04 +0000
Subject: [PATCH 12/77] fix: editing the selector or comment of a key does not
 change its only list member

---
 conda_recipe_manager/parser/recipe_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 09b2631..96a5995 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -166,7 +166,7 @@ class RecipeParser(RecipeReader):
         node.comment = comment
         # Some lines of YAML correspond to multiple nodes. For consistency, we need to ensure that comments are
         # duplicate across all nodes on a line.
-        if node.is_single_key():
+        if node.is_single_key() and not node.children[0].list_member_flag:
             node.children[0].comment = comment
 
         self._rebuild_selectors()
@@ -203,7 +203,7 @@ class RecipeParser(RecipeReader):
         node.comment = comment
         # Some lines of YAML correspond to multiple nodes. For consistency, we need to ensure that comments are
         # duplicate across all nodes on a line.
-        if node.is_single_key():
+        if node.is_single_key() and not node.children[0].list_member_flag:
             node.children[0].comment = comment
 
         self._rebuild_selectors()
@@ -249,7 +249,7 @@ class RecipeParser(RecipeReader):
         node.comment = comment
         # Comments for "single key" nodes apply to both the parent and child. This is because such parent nodes render
         # on the same line as their children.
-        if node.is_single_key():
+        if node.is_single_key() and not node.children[0].list_member_flag:
             node.children[0].comment = comment
         self._is_modified = True
 
-- 
2.43.0


From 54963b608b411814bfeb5a289c95464f4d44e085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:33 +0000
Subject: [PATCH 13/77] fix: editing the selector or comment of a key does not
 change its only list member

---
 conda_recipe_manager/parser/recipe_parser_deps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_parser_deps.py b/conda_recipe_manager/parser/recipe_parser_deps.py
index 064f448..5cdc8a0 100644
--- a/conda_recipe_manager/parser/recipe_parser_deps.py
+++ b/conda_recipe_manager/parser/recipe_parser_deps.py
@@ -196,7 +196,8 @@ class RecipeParserDeps(RecipeParser, RecipeReaderDeps):
         patch_success: Final[bool] = self._patch_add_dep(dep, patch_op, patch_path, sel_mode, is_new_section)
 
         if patch_success and dep.selector is not None:
-            sel_path = patch_path
+            # A new section is created with the dependency as its only member.
+            sel_path = f"{base_path}/0" if is_new_section else patch_path
             # `add_selector()`, by nature of how selectors work, does not support "append" mode. If an append operation
             # occurred, we must calculate the position of the last array element. We only add selectors on a successful
             # patch, so we know we can make assume a dependency list exists.
-- 
2.43.0


From 08c0d18f1ec3d03c296296f73eeeb2ba240f2006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:23 +0000
Subject: [PATCH 14/77] fix: a multiline string may be the last value of a
 recipe

---
 conda_recipe_manager/parser/recipe_reader.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index a8c5d5d..139b23e 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -450,16 +450,13 @@ class RecipeReader(IsModifiable):
                 )
                 # Type narrow that we assigned `value` as a `list`
                 assert isinstance(multiline_node.value, list)
-                multiline = lines[line_idx]
-                multiline_indent = num_tab_spaces(multiline)
                 # Add the line to the list once it is verified to be the next line to capture in this node. This means
                 # that `line_idx` will point to the line of the next node, post-processing. Note that blank lines are
-                # valid in multi-line strings, occasionally found in `/about/summary` sections.
-                while multiline_indent > new_indent or multiline == "":
-                    multiline_node.value.append(multiline.strip())
+                # valid in multi-line strings, occasionally found in `/about/summary` sections. The string may also be
+                # the last value in the file.
+                while line_idx < num_lines and (lines[line_idx] == "" or num_tab_spaces(lines[line_idx]) > new_indent):
+                    multiline_node.value.append(lines[line_idx].strip())
                     line_idx += 1
-                    multiline = lines[line_idx]
-                    multiline_indent = num_tab_spaces(multiline)
                 # The previous level is the key to this multi-line value, so we can safely reset it.
                 new_node.children = [multiline_node]
             if new_indent > cur_indent:
-- 
2.43.0


From f048fab782d7acbf81a1bc295815c7c9d6b919e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:13 +0000
Subject: [PATCH 15/77] fix: keep the indentation and the number of blank lines
 of multiline strings

---
 conda_recipe_manager/parser/recipe_reader.py | 21 ++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 139b23e..6110ee3 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -454,9 +454,26 @@ class RecipeReader(IsModifiable):
                 # that `line_idx` will point to the line of the next node, post-processing. Note that blank lines are
                 # valid in multi-line strings, occasionally found in `/about/summary` sections. The string may also be
                 # the last value in the file.
-                while line_idx < num_lines and (lines[line_idx] == "" or num_tab_spaces(lines[line_idx]) > new_indent):
-                    multiline_node.value.append(lines[line_idx].strip())
+                multiline_indent: Optional[int] = None
+                while line_idx < num_lines and (
+                    lines[line_idx].strip() == "" or num_tab_spaces(lines[line_idx]) > new_indent
+                ):
+                    multiline = lines[line_idx]
+                    # The first line sets the indentation of the string. Any further indentation is part of the string.
+                    if multiline_indent is None and multiline.strip():
+                        multiline_indent = num_tab_spaces(multiline)
+                    multiline_node.value.append(
+                        multiline[min(multiline_indent or 0, num_tab_spaces(multiline)) :].rstrip()
+                    )
                     line_idx += 1
+                # A top-level section is always rendered with a trailing blank line, so it must not also be tracked as a
+                # part of the string.
+                if line_idx >= num_lines or num_tab_spaces(lines[line_idx]) == 0:
+                    while multiline_node.value and multiline_node.value[-1] == "":
+                        multiline_node.value.pop()
+                        # `+` keeps all of the other blank lines
+                        if variant_sign == "+":
+                            break
                 # The previous level is the key to this multi-line value, so we can safely reset it.
                 new_node.children = [multiline_node]
             if new_indent > cur_indent:
-- 
2.43.0


From dfa1f8fbaf86a6ed66ba103764992039c850ee51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:29 +0000
Subject: [PATCH 16/77] fix: support multiline strings in the first key of a
 mapping found in a list

---
 conda_recipe_manager/parser/recipe_reader.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 6110ee3..18f7409 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -455,8 +455,12 @@ class RecipeReader(IsModifiable):
                 # valid in multi-line strings, occasionally found in `/about/summary` sections. The string may also be
                 # the last value in the file.
                 multiline_indent: Optional[int] = None
+                # If the key is the first key of a mapping in a list, it is indented past the list's `-` mark.
+                key_node, key_indent = new_node, new_indent
+                if new_node.is_collection_element():
+                    key_node, key_indent = new_node.children[0], new_indent + TAB_SPACE_COUNT
                 while line_idx < num_lines and (
-                    lines[line_idx].strip() == "" or num_tab_spaces(lines[line_idx]) > new_indent
+                    lines[line_idx].strip() == "" or num_tab_spaces(lines[line_idx]) > key_indent
                 ):
                     multiline = lines[line_idx]
                     # The first line sets the indentation of the string. Any further indentation is part of the string.
@@ -475,7 +479,7 @@ class RecipeReader(IsModifiable):
                         if variant_sign == "+":
                             break
                 # The previous level is the key to this multi-line value, so we can safely reset it.
-                new_node.children = [multiline_node]
+                key_node.children = [multiline_node]
             if new_indent > cur_indent:
                 node_stack.append(last_node)
                 # Edge case: The first element of a list of objects that is NOT a 1-line key-value pair needs
@@ -636,13 +640,7 @@ class RecipeReader(IsModifiable):
                 )
                 return
 
-            if is_first_collection_child:
-                lines.append(
-                    f"{TAB_AS_SPACES * (depth-1)}- {node.value}: "
-                    f"{stringify_yaml(node.children[0].value)}  "
-                    f"{node.children[0].comment}".rstrip()
-                )
-                return
+            key_prefix = f"{TAB_AS_SPACES * (depth-1)}- " if is_first_collection_child else spaces
 
             # Handle multi-line statements. In theory this will probably only ever be strings, but we'll try to account
             # for other types.
@@ -650,7 +648,7 @@ class RecipeReader(IsModifiable):
             # By the language spec, # symbols do not indicate comments on multiline strings.
             if node.children[0].multiline_variant != MultilineVariant.NONE:
                 multi_variant: Final[MultilineVariant] = node.children[0].multiline_variant
-                lines.append(f"{spaces}{node.value}: {multi_variant}  {node.comment}".rstrip())
+                lines.append(f"{key_prefix}{node.value}: {multi_variant}  {node.comment}".rstrip())
                 for val_line in cast(list[str], node.children[0].value):
                     lines.append(
                         f"{spaces}{TAB_AS_SPACES}"
@@ -658,7 +656,7 @@ class RecipeReader(IsModifiable):
                     )
                 return
             lines.append(
-                f"{spaces}{node.value}: "
+                f"{key_prefix}{node.value}: "
                 f"{stringify_yaml(node.children[0].value)}  "
                 f"{node.children[0].comment}".rstrip()
             )
-- 
2.43.0


From dedb01583dc09355cfcd43f65a45f818d41453c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:26 +0000
Subject: [PATCH 17/77] fix: escape quotes and backslashes when rendering V0
 string variables

---
 conda_recipe_manager/parser/recipe_reader.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 18f7409..93282d8 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -359,6 +359,8 @@ class RecipeReader(IsModifiable):
         """
         # Tracks Jinja variables set by the file
         self._vars_tbl: dict[str, JsonType] = {}
+        # Tracks the variables set to a JINJA expression, as opposed to a literal value.
+        self._vars_expr_tbl: dict[str, str] = {}
 
         match self._schema_version:
             case SchemaVersion.V0:
@@ -370,6 +372,7 @@ class RecipeReader(IsModifiable):
                         self._vars_tbl[key] = ast.literal_eval(value)  # type: ignore[misc]
                     except Exception:  # pylint: disable=broad-exception-caught
                         self._vars_tbl[key] = value
+                        self._vars_expr_tbl[key] = value
             case SchemaVersion.V1:
                 self._vars_tbl = cast(dict[str, JsonType], self.get_value("/context", {}))
 
@@ -715,9 +718,11 @@ class RecipeReader(IsModifiable):
         # `/context`.
         if self._schema_version == SchemaVersion.V0:
             for key, val in self._vars_tbl.items():
-                # Double quote strings
+                # Double quote strings. Literal strings containing quotes or escape sequences need to be escaped.
                 if isinstance(val, str):
-                    val = f'"{val}"'
+                    is_expr = val == self._vars_expr_tbl.get(key)
+                    is_simple = '"' not in val and repr(val) == f"'{val}'"
+                    val = f'"{val}"' if is_expr or is_simple else repr(val)
                 lines.append(f"{{% set {key} = {val} %}}")
             # Add spacing if variables have been set
             if len(self._vars_tbl):
-- 
2.43.0


From 57244c5cfb11b7fe0b06ffc57c945754ce38dc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:56 +0000
Subject: [PATCH 18/77] fix: patching in a multiline string as part of a
 mapping does not corrupt it

---
 conda_recipe_manager/parser/_types.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index 8379076..618d8ff 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -116,6 +116,18 @@ class ForceIndentDumper(yaml.Dumper):
     def increase_indent(self, flow: bool = False, indentless: bool = False) -> None:  # pylint: disable=unused-argument
         return super().increase_indent(flow, False)
 
+    def represent_str(self, data: str) -> yaml.ScalarNode:
+        """
+        Represents strings. Our parser requires multiline strings to use one of the multiline markers.
+
+        :param data: String to represent
+        :returns: YAML node that represents the string
+        """
+        return self.represent_scalar("tag:yaml.org,2002:str", data, style="|" if "\n" in data else None)
+
+
+ForceIndentDumper.add_representer(str, ForceIndentDumper.represent_str)
+
 
 class Regex:
     """
-- 
2.43.0


From 624957aa2293f2db3b1cfcfc5f40a8540b280ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:27 +0000
Subject: [PATCH 19/77] fix: patch supports empty lists and mappings as values

---
 conda_recipe_manager/parser/recipe_parser.py | 4 ++--
 conda_recipe_manager/parser/recipe_reader.py | 6 +++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 96a5995..1535f95 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -388,7 +388,7 @@ class RecipeParser(RecipeReader):
         # Mark children as list members if they are list members
         if append_to_list or phys_idx > INVALID_IDX:
             # Adding an object to a list requires the children to be wrapped in a collection node
-            if not isinstance(value, PRIMITIVES_TUPLE):
+            if value and not isinstance(value, PRIMITIVES_TUPLE):
                 new_children = [Node(list_member_flag=True, children=new_children)]
             else:
                 for child in new_children:
@@ -457,7 +457,7 @@ class RecipeParser(RecipeReader):
         # Lists inject all children at the target position.
         if phys_idx > INVALID_IDX:
             # Adding an object to a list requires the children to be wrapped in a collection node
-            if not isinstance(value, PRIMITIVES_TUPLE):
+            if value and not isinstance(value, PRIMITIVES_TUPLE):
                 new_children = [Node(list_member_flag=True, children=new_children)]
             else:
                 # Ensure all children are marked as list members
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 93282d8..979c5f3 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -181,7 +181,7 @@ class RecipeReader(IsModifiable):
             # multi-output recipe files so we need to support the scenario here.
             #
             # `PKG-3006` tracks an investigation effort into what we need to support for our purposes.
-            if isinstance(output[0], dict):
+            if isinstance(output[0], dict) and output[0]:
                 # Build up the key-and-potentially-value pair nodes first
                 key_children: list[Node] = []
                 key = list(output[0].keys())[0]
@@ -214,6 +214,10 @@ class RecipeReader(IsModifiable):
                 )
             ]
 
+        # Empty collections render on a single line, like any other value.
+        if isinstance(value, (list, dict)) and not value:
+            return [Node(cast(Primitives, value))]
+
         # For complex types, generate the YAML equivalent and build a new tree.
         if not isinstance(value, PRIMITIVES_TUPLE):
             # Although not technically required by YAML, we add the optional spacing for human readability.
-- 
2.43.0


From 85104002de4db6b54fbe8c292e18642a3ba681e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:33 +0000
Subject: [PATCH 20/77] fix: selector expressions follow Python's operator
 precedence

'and' and 'or' were given the same precedence and associated to the right, so
'osx and arm64 or win' was interpreted as 'osx and (arm64 or win)'.
---
 conda_recipe_manager/parser/selector_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/selector_parser.py b/conda_recipe_manager/parser/selector_parser.py
index e2ba136..8ada3a7 100644
--- a/conda_recipe_manager/parser/selector_parser.py
+++ b/conda_recipe_manager/parser/selector_parser.py
@@ -121,11 +121,12 @@ class SelectorParser(IsModifiable):
         while tokens:
             node = _SelectorNode(tokens.pop(0))
             if node.is_logical_op():
-                # `NOT` has the highest precedence. For example:
+                # Operators follow Python's precedence rules: `NOT`, `AND`, then `OR`. For example:
                 #   - `not osx and win` is interpreted as `(not osx) and win`
+                #   - `osx and arm64 or win` is interpreted as `(osx and arm64) or win`
                 #   - In Python, `not True or True` is interpreted as `(not True) or True`, returning `True`
                 if node.value != LogicOp.NOT:
-                    while op_stack and op_stack[-1].value == LogicOp.NOT:
+                    while op_stack and (node.value == LogicOp.OR or op_stack[-1].value != LogicOp.OR):
                         postfix_stack.append(op_stack.pop())
                 op_stack.append(node)
                 continue
-- 
2.43.0


From 637ec8332fe69816397d167d58d0cd4994655b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:33 +0000
Subject: [PATCH 21/77] fix: git fetcher checks out the requested tag or
 revision

The target resolved from the tag, revision and branch was ignored: only the
branch name was ever passed to 'git checkout'.
---
 conda_recipe_manager/fetcher/git_artifact_fetcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/fetcher/git_artifact_fetcher.py b/conda_recipe_manager/fetcher/git_artifact_fetcher.py
index 2aa3c70..0c3ebab 100644
--- a/conda_recipe_manager/fetcher/git_artifact_fetcher.py
+++ b/conda_recipe_manager/fetcher/git_artifact_fetcher.py
@@ -104,7 +104,7 @@ class GitArtifactFetcher(BaseArtifactFetcher):
         git_target: Final[Optional[str]] = self._resolve_checkout_target()
         if git_target:
             try:
-                repo.git.checkout(self._git_target.branch, force=True)
+                repo.git.checkout(git_target, force=True)
             except git_exceptions.GitError as e:
                 raise FetchError(f"Failed to git checkout target: {git_target}") from e
 
-- 
2.43.0


From 11a961bbab6c16bf44eac467d45de478ebfc97e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:58 +0000
Subject: [PATCH 22/77] fix: git fetcher can fetch from a local repository

The temporary directory already exists when the repository is copied into it,
so 'copytree()' always failed.
---
 conda_recipe_manager/fetcher/git_artifact_fetcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/fetcher/git_artifact_fetcher.py b/conda_recipe_manager/fetcher/git_artifact_fetcher.py
index 0c3ebab..fca8fd1 100644
--- a/conda_recipe_manager/fetcher/git_artifact_fetcher.py
+++ b/conda_recipe_manager/fetcher/git_artifact_fetcher.py
@@ -65,7 +65,7 @@ class GitArtifactFetcher(BaseArtifactFetcher):
             case True:
                 return Repo.clone_from(self._git_target.url, self._temp_dir_path)  # type: ignore[misc]
             case False:
-                shutil.copytree(self._git_target.url, self._temp_dir_path)
+                shutil.copytree(self._git_target.url, self._temp_dir_path, dirs_exist_ok=True)
                 return Repo(self._temp_dir_path)
 
     def _resolve_checkout_target(self) -> Optional[str]:
-- 
2.43.0


From 44d25a49851927ed4550414e747aa87442e2b7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:25 +0000
Subject: [PATCH 23/77] fix: truncated, corrupt or unsupported archives raise a
 FetchError

'EOFError', 'zlib.error', 'RuntimeError' and 'NotImplementedError' raised while
extracting an archive escaped from 'fetch()'.
---
 .../fetcher/http_artifact_fetcher.py                | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/fetcher/http_artifact_fetcher.py b/conda_recipe_manager/fetcher/http_artifact_fetcher.py
index 2473478..0c3ac94 100644
--- a/conda_recipe_manager/fetcher/http_artifact_fetcher.py
+++ b/conda_recipe_manager/fetcher/http_artifact_fetcher.py
@@ -4,8 +4,10 @@
 
 from __future__ import annotations
 
+import lzma
 import tarfile
 import zipfile
+import zlib
 from enum import Enum, auto
 from pathlib import Path
 from typing import Final, Iterator, cast
@@ -82,7 +84,16 @@ class HttpArtifactFetcher(BaseArtifactFetcher):
                 # TODO 7-zip support
                 case _:
                     raise FetchError("The archive type could not be identified.")
-        except (tarfile.TarError, zipfile.BadZipFile, ValueError) as e:
+        except (
+            tarfile.TarError,
+            zipfile.BadZipFile,
+            ValueError,
+            # Raised by the decompression libraries on truncated, corrupt, encrypted, or unsupported data
+            EOFError,
+            RuntimeError,
+            lzma.LZMAError,
+            zlib.error,
+        ) as e:
             raise FetchError("An extraction error occurred while extracting the archive.") from e
         except IOError as e:
             raise FetchError("A file system error occurred while extracting the archive.") from e
-- 
2.43.0


From 5ee891f87d3bcc707fc903a07f3cfb9669104873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:16 +0000
Subject: [PATCH 24/77] fix: bumping to a new version resets the build number
 even with --build-num

As documented in the command, the flag is invalidated by a new target version.
---
 conda_recipe_manager/commands/bump_recipe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/commands/bump_recipe.py b/conda_recipe_manager/commands/bump_recipe.py
index a92a213..d897d54 100644
--- a/conda_recipe_manager/commands/bump_recipe.py
+++ b/conda_recipe_manager/commands/bump_recipe.py
@@ -388,7 +388,7 @@ def bump_recipe(
         sys.exit(ExitCode.PARSE_EXCEPTION)
 
     # Attempt to update fields
-    _update_build_num(recipe_parser, build_num)
+    _update_build_num(recipe_parser, build_num and target_version is None)
 
     # NOTE: We check if `target_version` is specified to perform a "full bump" for type checking reasons. Also note that
     # the `build_num` flag is invalidated if we are bumping to a new version. The build number must be reset to 0 in
-- 
2.43.0


From 04c85bdb2d3ae58d4192e91605583dedb7e7717f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:40 +0000
Subject: [PATCH 25/77] fix: search_and_patch patches every match and leaves
 the caller's patch alone

Patching a list member (e.g. removing it) shifts the members that follow, so
the paths of later matches were wrong.
---
 conda_recipe_manager/parser/recipe_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 1535f95..d6839d0 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -630,9 +630,9 @@ class RecipeParser(RecipeReader):
         """
         paths = self.search(regex, include_comment)
         summation: bool = True
-        for path in paths:
-            patch["path"] = path
-            summation = summation and self.patch(patch)
+        # Patching a list member may shift the members that follow it, so the paths are patched from last to first.
+        for path in reversed(paths):
+            summation = summation and self.patch({**patch, "path": path})
         return summation
 
     def diff(self) -> str:
-- 
2.43.0


From e6377617547e75b1c8386eef7f2b57fefcfaedab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:24 +0000
Subject: [PATCH 26/77] fix: get_variable_references only reports uses of the
 given variable

Variables whose name contains the given name (e.g. 'pkg_name' for 'name') were
reported as well.
---
 conda_recipe_manager/parser/recipe_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 979c5f3..443b19b 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -1098,9 +1098,9 @@ class RecipeReader(IsModifiable):
         def _init_re() -> re.Pattern[str]:
             match self._schema_version:
                 case SchemaVersion.V0:
-                    return re.compile(r"{{.*" + var + r".*}}")
+                    return re.compile(r"{{[^}]*\b" + re.escape(var) + r"\b.*}}")
                 case SchemaVersion.V1:
-                    return re.compile(r"\${{.*" + var + r".*}}")
+                    return re.compile(r"\${{[^}]*\b" + re.escape(var) + r"\b.*}}")
 
         var_re: Final[re.Pattern[str]] = _init_re()
 
-- 
2.43.0


From aec13aefdd4631a6d2e669d51ec66c8e91a63014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:34 +0000
Subject: [PATCH 27/77] fix: an empty requirements section contains no
 dependency paths

The length of the section's name was mistaken for its number of dependencies.
---
 conda_recipe_manager/parser/recipe_reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 443b19b..20dc650 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -1033,6 +1033,9 @@ class RecipeReader(IsModifiable):
                 # Relying on `get_value()` ensures that we will only examine literal values and ignore comments
                 # in-between dependencies.
                 dependencies = cast(list[str], self.get_value(section_path, []))
+                # Sections may be empty
+                if not isinstance(dependencies, list):
+                    continue
                 for i in range(len(dependencies)):
                     paths.append(f"{section_path}/{i}")
 
-- 
2.43.0


From fb4ff50819a13184334fee2fb58297825144782b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:52 +0000
Subject: [PATCH 28/77] fix: escape every unresolved variable and not only the
 first in a string

As documented by get_value(), unresolved variables are escaped with `${{ }}`. This
was only done if the string starts with the substitution.
---
 conda_recipe_manager/parser/recipe_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 20dc650..cd315a9 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -352,8 +352,8 @@ class RecipeReader(IsModifiable):
             #   - Clearly identifies the value as an unresolved variable
             #   - Normalizes the substitution syntax with V1
             #   - Ensures the returned value is YAML-parsable
-            elif self._schema_version == SchemaVersion.V0 and s[:2] == "{{":
-                s = f"${s}"
+            elif self._schema_version == SchemaVersion.V0:
+                s = re.sub(r"(?<!\$)" + re.escape(match), lambda m: f"${m.group()}", s)
         return cast(JsonType, yaml.load(s, Loader=SafeLoader))
 
     def _init_vars_tbl(self) -> None:
-- 
2.43.0


From 5449986c045f557d9b24e6533a0052d2ad9ccf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:48 +0000
Subject: [PATCH 29/77] fix: patching in a string that resembles a number does
 not re-format it

Bumping '/package/version' to '1.10' rendered the version as '1.1'.
---
 conda_recipe_manager/parser/recipe_reader.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index cd315a9..54af64d 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -228,7 +228,16 @@ class RecipeReader(IsModifiable):
             )._root.children
 
         # Primitives can be safely stringified to generate a parse tree.
-        return RecipeReader(str(stringify_yaml(value)))._root.children  # pylint: disable=protected-access
+        children = RecipeReader(str(stringify_yaml(value)))._root.children  # pylint: disable=protected-access
+        # Strings that resemble numbers must not be re-formatted. For example, the version `1.10` is not `1.1`.
+        if (
+            isinstance(value, str)
+            and len(children) == 1
+            and not children[0].comment
+            and isinstance(children[0].value, (int, float))
+        ):
+            return [Node(value)]
+        return children
 
     def _set_on_schema_version(self) -> tuple[int, re.Pattern[str]]:
         """
-- 
2.43.0


From fc381f6fc44578fa7a9957ac81ef269d157a4692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:47 +0000
Subject: [PATCH 30/77] fix: variables of V1 recipes are kept in step with the
 context section

set_variable() and del_variable() had no effect on the recipe, e.g. bumping a V1
recipe did not change its version. Patching the section did not change the
variables and an empty section was not supported.
---
 conda_recipe_manager/parser/recipe_parser.py | 15 +++++++++++++--
 conda_recipe_manager/parser/recipe_reader.py |  5 ++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index d6839d0..f3ee047 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -33,7 +33,7 @@ from conda_recipe_manager.parser._traverse import (
 )
 from conda_recipe_manager.parser._types import Regex, StrStack
 from conda_recipe_manager.parser._utils import str_to_stack_path
-from conda_recipe_manager.parser.enums import SelectorConflictMode
+from conda_recipe_manager.parser.enums import SchemaVersion, SelectorConflictMode
 from conda_recipe_manager.parser.exceptions import JsonPatchValidationException
 from conda_recipe_manager.parser.recipe_reader import RecipeReader
 from conda_recipe_manager.parser.selector_parser import SelectorParser
@@ -103,6 +103,11 @@ class RecipeParser(RecipeReader):
         :param var: Variable to modify
         :param value: Value to set
         """
+        # Variables of V1 recipes are stored in the parse tree.
+        if self._schema_version == SchemaVersion.V1 and not self.patch(
+            {"op": "add", "path": f"/context/{var}", "value": value}
+        ):
+            self.patch({"op": "add", "path": "/context", "value": {var: value}})
         self._vars_tbl[var] = value
         self._is_modified = True
 
@@ -114,7 +119,10 @@ class RecipeParser(RecipeReader):
         """
         if not var in self._vars_tbl:
             return
-        del self._vars_tbl[var]
+        # Variables of V1 recipes are stored in the parse tree.
+        if self._schema_version == SchemaVersion.V1:
+            self.patch({"op": "remove", "path": f"/context/{var}"})
+        self._vars_tbl.pop(var, None)
         self._is_modified = True
 
     ## Selector Editing Functions ##
@@ -610,6 +618,9 @@ class RecipeParser(RecipeReader):
         if is_successful and op != "test":
             # TODO this is not the most efficient way to update the selector table, but for now, it works.
             self._rebuild_selectors()
+            # The variables of V1 recipes are part of the parse tree.
+            if self._schema_version == SchemaVersion.V1:
+                self._init_vars_tbl()
             # TODO technically this doesn't handle a no-op.
             self._is_modified = True
 
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 54af64d..63a1a5e 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -387,7 +387,10 @@ class RecipeReader(IsModifiable):
                         self._vars_tbl[key] = value
                         self._vars_expr_tbl[key] = value
             case SchemaVersion.V1:
-                self._vars_tbl = cast(dict[str, JsonType], self.get_value("/context", {}))
+                context = self.get_value("/context", {})
+                # The section may be empty
+                if isinstance(context, dict):
+                    self._vars_tbl = context
 
     def _rebuild_selectors(self) -> None:
         """
-- 
2.43.0


From d1c63e0b582c5da1d40a7daf4046e954ffaf4ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:42 +0000
Subject: [PATCH 31/77] fix: bulk conversions count every unrecoverable failure
 as an exception

Recipes that failed to pre-process or that are not V0 recipes were counted as
successful by the 'theoretical success' statistics.
---
 conda_recipe_manager/commands/convert.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/commands/convert.py b/conda_recipe_manager/commands/convert.py
index 357443f..d6005e1 100644
--- a/conda_recipe_manager/commands/convert.py
+++ b/conda_recipe_manager/commands/convert.py
@@ -306,7 +306,13 @@ def convert(
     num_recipe_success: int = 0
 
     for project_name, result in results.items():
-        if result.code in {ExitCode.PARSE_EXCEPTION, ExitCode.READ_EXCEPTION, ExitCode.RENDER_EXCEPTION}:
+        if result.code in {
+            ExitCode.PARSE_EXCEPTION,
+            ExitCode.READ_EXCEPTION,
+            ExitCode.RENDER_EXCEPTION,
+            ExitCode.PRE_PROCESS_EXCEPTION,
+            ExitCode.ILLEGAL_OPERATION,
+        }:
             recipes_with_except.append(project_name)
             exceptions = result.msg_tbl.get_messages(MessageCategory.EXCEPTION)
             for exception in exceptions:
-- 
2.43.0


From 8d5acfe472f3e283a831b50ccade1b134ac00799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:42 +0000
Subject: [PATCH 32/77] fix: relative imports are not dependencies

'from .foo import bar' was reported as a dependency on the package 'foo'.
---
 conda_recipe_manager/scanner/dependency/py_dep_scanner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/scanner/dependency/py_dep_scanner.py b/conda_recipe_manager/scanner/dependency/py_dep_scanner.py
index b860230..553f4e8 100644
--- a/conda_recipe_manager/scanner/dependency/py_dep_scanner.py
+++ b/conda_recipe_manager/scanner/dependency/py_dep_scanner.py
@@ -107,11 +107,11 @@ class PythonDependencyScanner(BaseDependencyScanner):
                 # Handle multiple (comma-separated) imports on one line
                 for alias in node.names:
                     module_names.append(alias.name.split(".")[0])
-            elif node.module is not None:
+            # Relative imports refer to modules of the project, regardless of what they are called.
+            elif node.module is not None and node.level == 0:
                 module_names.append(node.module.split(".")[0])
 
             for module_name in module_names:
-                # TODO filter relative imports
                 # Filter-out the standard library modules and local module names (i.e. modules defined in the target
                 # project).
                 if not module_name or module_name in sys.stdlib_module_names or module_name in project_modules:
-- 
2.43.0


From 206deb90aab2886dbfdd7d695db90ba1485ddb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:42 +0000
Subject: [PATCH 33/77] fix: rattler-bulk-build supports paths and arguments
 containing spaces

The arguments were joined into a shell command without being quoted.
---
 conda_recipe_manager/commands/rattler_bulk_build.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/commands/rattler_bulk_build.py b/conda_recipe_manager/commands/rattler_bulk_build.py
index f51e44d..77d3523 100644
--- a/conda_recipe_manager/commands/rattler_bulk_build.py
+++ b/conda_recipe_manager/commands/rattler_bulk_build.py
@@ -8,6 +8,7 @@ import json
 import multiprocessing as mp
 import operator
 import re
+import shlex
 import subprocess
 import sys
 import time
@@ -53,7 +54,7 @@ def build_recipe(file: Path, path: Path, args: list[str]) -> tuple[str, BuildRes
     cmd.extend(args)
     try:
         output: Final[subprocess.CompletedProcess[str]] = subprocess.run(
-            " ".join(cmd),
+            shlex.join(cmd),
             encoding="utf-8",
             capture_output=True,
             shell=True,
-- 
2.43.0


From 045842180e2f18a44c431625ff5a7491c52ecc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:06 +0000
Subject: [PATCH 34/77] fix: license names containing 'or', 'and' or 'with' are
 matched

Operators of SPDX expressions were searched for anywhere in the name, so names
like 'BitTorrent Open Source License v1.0' never matched. The exact name of a
license is a perfect match even if it contains such a word.
---
 conda_recipe_manager/licenses/spdx_utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/conda_recipe_manager/licenses/spdx_utils.py b/conda_recipe_manager/licenses/spdx_utils.py
index ab2969b..e449f88 100644
--- a/conda_recipe_manager/licenses/spdx_utils.py
+++ b/conda_recipe_manager/licenses/spdx_utils.py
@@ -10,6 +10,7 @@ from __future__ import annotations
 
 import difflib
 import json
+import re
 from importlib.resources import files
 from importlib.resources.abc import Traversable
 from typing import Final, Optional, cast
@@ -71,16 +72,15 @@ class SpdxUtils:
         :returns: The closest matching SPDX identifier, if found
         """
         # Short-circuit on perfect matches
-        if license_field in self._license_ids:
-            return license_field
+        if license_field in self._license_matching_table:
+            return self._license_matching_table[license_field]
 
         sanitized_license = license_field.strip().upper()
 
         # TODO: Improve this logic to support SPDX expressions.
         # Don't simplify compound licenses that might get accidentally simplified
-        for op in SPDX_EXPRESSION_OPS:
-            if op in sanitized_license:
-                return None
+        if SPDX_EXPRESSION_OPS & set(re.split(r"[\s()]+", sanitized_license)):
+            return None
         if "," in sanitized_license:
             return None
 
-- 
2.43.0


From 2bee5001b3511c80199bd6acd8dc86987af8dcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:04 +0000
Subject: [PATCH 35/77] fix: support empty keys as the first key of a mapping
 found in a list

---
 conda_recipe_manager/parser/_node.py         | 11 +++++++++++
 conda_recipe_manager/parser/recipe_reader.py | 19 +++++++++++++++----
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/conda_recipe_manager/parser/_node.py b/conda_recipe_manager/parser/_node.py
index 1ea2666..e9c4685 100644
--- a/conda_recipe_manager/parser/_node.py
+++ b/conda_recipe_manager/parser/_node.py
@@ -165,3 +165,14 @@ class Node:
         :returns: True if the node represents an element that is a collection. False otherwise.
         """
         return self.value == Node._sentinel and self.list_member_flag and bool(self.children)
+
+    def get_first_line(self) -> "Node":
+        """
+        Finds the node that is rendered on the same line as the mark (`- `) of a list member. This is the first key of
+        a collection. Any other node is rendered on a line of its own.
+
+        :returns: The node that represents the line that this node starts on.
+        """
+        if not self.is_collection_element():
+            return self
+        return next((child for child in self.children if not child.is_comment()), self)
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 63a1a5e..23d922c 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -502,8 +502,12 @@ class RecipeReader(IsModifiable):
             if new_indent > cur_indent:
                 node_stack.append(last_node)
                 # Edge case: The first element of a list of objects that is NOT a 1-line key-value pair needs
-                # to be added to the stack to maintain composition
-                if last_node.is_collection_element() and not last_node.children[0].is_single_key():
+                # to be added to the stack to maintain composition. Lines aligned with that element are its siblings.
+                if (
+                    last_node.is_collection_element()
+                    and not last_node.children[0].is_single_key()
+                    and new_indent > cur_indent + TAB_SPACE_COUNT
+                ):
                     node_stack.append(last_node.children[0])
             elif new_indent < cur_indent:
                 # Multiple levels of depth can change from line to line, so multiple stack nodes must be pop'd. Example:
@@ -641,7 +645,7 @@ class RecipeReader(IsModifiable):
         # Edge case: The first element of dictionary in a list has a list `- ` prefix. Subsequent keys in the dictionary
         # just have a tab.
         is_first_collection_child: Final[bool] = (
-            parent is not None and parent.is_collection_element() and node == parent.children[0]
+            parent is not None and parent.is_collection_element() and node is parent.get_first_line()
         )
 
         # Handle same-line printing
@@ -702,21 +706,28 @@ class RecipeReader(IsModifiable):
             # Nodes representing collections in a list have nothing to render
             lines.append(f"{tmp_spaces}{list_prefix}{node.value}:  {node.comment}".rstrip())
 
+        is_past_first_key = False
         for child in node.children:
             # Top-level empty-key edge case: Top level keys should have no additional indentation.
             extra_tab = "" if depth < 0 else TAB_AS_SPACES
             # Comments in a list are indented to list-level, but do not include a list `-` mark
             if child.is_comment():
+                # Comments that precede the first key of a collection in a list come before the list's `- ` mark.
+                if node.is_collection_element() and not is_past_first_key:
+                    extra_tab = ""
                 lines.append(f"{spaces}{extra_tab}" f"{child.comment}".rstrip())
             # Empty keys can be easily confused for leaf nodes. The difference is these nodes render with a "dangling"
             # `:` mark
             elif child.is_empty_key():
-                lines.append(f"{spaces}{extra_tab}" f"{stringify_yaml(child.value)}:  " f"{child.comment}".rstrip())
+                # The first key of a collection in a list is preceded by the list's `- ` mark.
+                indent = "- " if node.is_collection_element() and not is_past_first_key else extra_tab
+                lines.append(f"{spaces}{indent}" f"{stringify_yaml(child.value)}:  " f"{child.comment}".rstrip())
             # Leaf nodes are rendered as members in a list
             elif child.is_leaf():
                 lines.append(f"{spaces}{extra_tab}- " f"{stringify_yaml(child.value)}  " f"{child.comment}".rstrip())
             else:
                 RecipeReader._render_tree(child, depth + depth_delta, lines, node)
+            is_past_first_key = is_past_first_key or not child.is_comment()
             # By tradition, recipes have a blank line after every top-level section, unless they are a comment. Comments
             # should be left where they are.
             if depth < 0 and not child.is_comment():
-- 
2.43.0


From 1341cc345121552b7a33e7bb531d43ebf39e35b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:05 +0000
Subject: [PATCH 36/77] fix: selectors and comments of mappings found in lists
 are the ones of their first line

---
 conda_recipe_manager/parser/recipe_parser.py | 43 ++++++++++----------
 conda_recipe_manager/parser/recipe_reader.py |  7 +++-
 2 files changed, 26 insertions(+), 24 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index f3ee047..4c0d7bb 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -126,6 +126,24 @@ class RecipeParser(RecipeReader):
         self._is_modified = True
 
     ## Selector Editing Functions ##
+
+    def _set_line_comment(self, node: Node, comment: str) -> None:
+        """
+        Sets the comment (which may contain a selector) found at the end of a line.
+
+        :param node: Node found on the target line
+        :param comment: Comment to set
+        """
+        # Some lines of YAML correspond to multiple nodes. For consistency, we need to ensure that comments are
+        # duplicate across all nodes on a line. Collections in a list are handled by `_rebuild_selectors()`.
+        node = node.get_first_line()
+        node.comment = comment
+        if node.is_single_key() and not node.children[0].list_member_flag:
+            node.children[0].comment = comment
+
+        self._rebuild_selectors()
+        self._is_modified = True
+
     def add_selector(
         self, path: str, selector: str | SelectorParser, mode: SelectorConflictMode = SelectorConflictMode.REPLACE
     ) -> None:
@@ -171,14 +189,7 @@ class RecipeParser(RecipeReader):
             # Strip the existing comment of it's leading `#` symbol
             comment = f"# {selector} " + node.comment.replace("#", "", 1).strip()
 
-        node.comment = comment
-        # Some lines of YAML correspond to multiple nodes. For consistency, we need to ensure that comments are
-        # duplicate across all nodes on a line.
-        if node.is_single_key() and not node.children[0].list_member_flag:
-            node.children[0].comment = comment
-
-        self._rebuild_selectors()
-        self._is_modified = True
+        self._set_line_comment(node, comment)
 
     def remove_selector(self, path: str) -> Optional[str]:
         """
@@ -208,14 +219,7 @@ class RecipeParser(RecipeReader):
         if comment.strip() == "#":
             comment = ""
 
-        node.comment = comment
-        # Some lines of YAML correspond to multiple nodes. For consistency, we need to ensure that comments are
-        # duplicate across all nodes on a line.
-        if node.is_single_key() and not node.children[0].list_member_flag:
-            node.children[0].comment = comment
-
-        self._rebuild_selectors()
-        self._is_modified = True
+        self._set_line_comment(node, comment)
         return selector
 
     ## Comment Editing Functions ##
@@ -254,12 +258,7 @@ class RecipeParser(RecipeReader):
         # Prepend a `#` if it is missing
         if comment[0] != "#":
             comment = f"# {comment}"
-        node.comment = comment
-        # Comments for "single key" nodes apply to both the parent and child. This is because such parent nodes render
-        # on the same line as their children.
-        if node.is_single_key() and not node.children[0].list_member_flag:
-            node.children[0].comment = comment
-        self._is_modified = True
+        self._set_line_comment(node, comment)
 
     ## YAML Patching Functions ##
 
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 23d922c..6e7ae32 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -400,8 +400,11 @@ class RecipeReader(IsModifiable):
         self._selector_tbl: dict[str, list[SelectorInfo]] = {}
 
         def _collect_selectors(node: Node, path: StrStack) -> None:
-            # Ignore empty comments
-            if not node.comment:
+            # A collection in a list is found on the same line as its first key.
+            if node.is_collection_element():
+                node.comment = node.get_first_line().comment
+            # Ignore empty comments and lines that only contain a comment
+            if not node.comment or node.is_comment():
                 return
             match = Regex.SELECTOR.search(node.comment)
             if not match:
-- 
2.43.0


From e9ca2d1cd7836691dd2692c2c0483c449c77b92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:11 +0000
Subject: [PATCH 37/77] fix: reading the paths of a selector does not destroy
 them

---
 conda_recipe_manager/parser/_utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/parser/_utils.py b/conda_recipe_manager/parser/_utils.py
index 1f37fc8..7c4ff3d 100644
--- a/conda_recipe_manager/parser/_utils.py
+++ b/conda_recipe_manager/parser/_utils.py
@@ -60,9 +60,8 @@ def stack_path_to_str(path_stack: StrStack | StrStackImmutable) -> str:
     :param path_stack: Stack to construct back into a string.
     :returns: Path, described as a string.
     """
-    # Normalize type if a tuple is given.
-    if isinstance(path_stack, tuple):
-        path_stack = list(path_stack)
+    # Normalize type if a tuple is given. Copying the stack prevents modifying the one owned by the caller.
+    path_stack = list(path_stack)
     path = ""
     while len(path_stack) > 0:
         value = path_stack.pop()
-- 
2.43.0


From 475e4b3913c0576a8137249ac51ee6f672cd8a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:11 +0000
Subject: [PATCH 38/77] fix: render_to_object supports an empty key as the
 first key of a nested mapping

---
 conda_recipe_manager/parser/recipe_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 6e7ae32..ecff237 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -795,7 +795,7 @@ class RecipeReader(IsModifiable):
 
             # Empty keys are interpreted to point to `None`
             if child.is_empty_key():
-                data[key][child.value] = None
+                data.setdefault(key, {})[child.value] = None
                 continue
 
             # Collection nodes are skipped as they are placeholders. However, their children are rendered recursively
-- 
2.43.0


From 7a484f2a0374ff0c69af03f366edfd690ee55dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:48 +0000
Subject: [PATCH 39/77] fix: get_value of a collection with variables does not
 add quotes to its strings

---
 conda_recipe_manager/parser/recipe_reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index ecff237..11593fc 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -71,7 +71,7 @@ class RecipeReader(IsModifiable):
         """
         # Add the substitutions back in
         if isinstance(data, str):
-            data = modifier(quote_special_strings(data))
+            data = modifier(data)
         if isinstance(data, dict):
             for key in data.keys():
                 data[key] = RecipeReader._parse_yaml_recursive_sub(cast(str, data[key]), modifier)
@@ -98,8 +98,10 @@ class RecipeReader(IsModifiable):
         def _sub_jinja(out: JsonType) -> JsonType:
             if parser is None:
                 return out
+            # Rendering a string re-parses it as YAML, so quotes dropped by the YAML parser need to be restored.
             return RecipeReader._parse_yaml_recursive_sub(
-                out, parser._render_jinja_vars  # pylint: disable=protected-access
+                out,
+                lambda d: parser._render_jinja_vars(quote_special_strings(d)),  # pylint: disable=protected-access
             )
 
         # Our first attempt handles special string cases that require quotes that the YAML parser drops. If that fails,
-- 
2.43.0


From 4a4240e8029ed1c3fe5ff353e7ddcc0123c88914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:24 +0000
Subject: [PATCH 40/77] fix: a mapping with an empty key as its only member is
 not a key-value pair

---
 conda_recipe_manager/parser/_node.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/_node.py b/conda_recipe_manager/parser/_node.py
index e9c4685..fb4a55b 100644
--- a/conda_recipe_manager/parser/_node.py
+++ b/conda_recipe_manager/parser/_node.py
@@ -155,7 +155,12 @@ class Node:
 
         :returns: True if the node represents a single key. False otherwise.
         """
-        return self.key_flag and len(self.children) == 1 and self.children[0].is_leaf()
+        return (
+            self.key_flag
+            and len(self.children) == 1
+            and self.children[0].is_leaf()
+            and not self.children[0].is_empty_key()
+        )
 
     def is_collection_element(self) -> bool:
         """
-- 
2.43.0


From 5db8ca8886ab3c6bdb0259ff321ba45eaebc4e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:11 +0000
Subject: [PATCH 41/77] fix: get_value of a string that resembles a YAML alias
 does not raise

---
 conda_recipe_manager/parser/recipe_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 11593fc..9e3b3ee 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -109,7 +109,7 @@ class RecipeReader(IsModifiable):
         try:
             try:
                 output = _sub_jinja(cast(JsonType, yaml.load(s, Loader=SafeLoader)))
-            except yaml.scanner.ScannerError:
+            except (yaml.scanner.ScannerError, yaml.composer.ComposerError):
                 # We quote-escape here for problematic YAML strings that are non-JINJA, like `**/lib.so`. Parsing
                 # invalid YAML containing V0 JINJA statements should cause an exception and fallback to the other
                 # recovery logic.
-- 
2.43.0


From 55d7ee9a1024f24ff92a19000b857f9bd23d76b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:04 +0000
Subject: [PATCH 42/77] fix: find_value and search do not match the name of an
 empty key

---
 conda_recipe_manager/parser/recipe_reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 9e3b3ee..cb98599 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -964,6 +964,7 @@ class RecipeReader(IsModifiable):
             #   - Types are checked so bools aren't simplified to "truthiness" evaluations.
             if (value is None and node.is_empty_key()) or (
                 node.is_leaf()
+                and not node.is_empty_key()
                 and type(node.value) == type(value)  # pylint: disable=unidiomatic-typecheck
                 and node.value == value
             ):
@@ -1279,7 +1280,8 @@ class RecipeReader(IsModifiable):
             value = str(stringify_yaml(node.value))
             if include_comment and node.comment:
                 value = f"{value}{TAB_AS_SPACES}{node.comment}"
-            if node.is_leaf() and re_obj.search(value):
+            # Empty keys have no value to search.
+            if node.is_leaf() and not node.is_empty_key() and re_obj.search(value):
                 paths.append(stack_path_to_str(path_stack))
 
         traverse_all(self._root, _search_paths)
-- 
2.43.0


From 10754e4aca67cf799932749d910835874bf10246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:20 +0000
Subject: [PATCH 43/77] fix: a value can not be moved into one of its own
 children

---
 conda_recipe_manager/parser/recipe_parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 4c0d7bb..423b42d 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -498,6 +498,11 @@ class RecipeParser(RecipeReader):
         except KeyError:
             return False
 
+        # As per the RFC, a value can't be moved into one of its own children.
+        from_stack: Final[StrStack] = str_to_stack_path(value_from)
+        if path_stack[-len(from_stack) :] == from_stack:
+            return False
+
         # Removing the original value can change what the target location means (or remove it entirely). If the value
         # can't be added back, the recipe is restored so that no data is lost.
         backup: Final[Node] = copy.deepcopy(self._root)
-- 
2.43.0


From 2570577cf0351a57f31a0b6da99e13b96453cc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:31 +0000
Subject: [PATCH 44/77] fix: an empty path addresses the root of the recipe

---
 conda_recipe_manager/parser/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/_utils.py b/conda_recipe_manager/parser/_utils.py
index 7c4ff3d..68d8939 100644
--- a/conda_recipe_manager/parser/_utils.py
+++ b/conda_recipe_manager/parser/_utils.py
@@ -42,7 +42,7 @@ def str_to_stack_path(path: str) -> StrStack:
     # TODO reduce 3 (O)n operations to 1 O(n) operation
 
     # Wipe the trailing `/`, if provided. It doesn't have meaning here; only the `root` path is tracked.
-    if path[-1] == ROOT_NODE_VALUE:
+    if path.endswith(ROOT_NODE_VALUE):
         path = path[:-1]
     parts = path.split("/")
     # Replace empty strings with `/` for compatibility in other functions.
-- 
2.43.0


From 80ce8845f874d4b7ed7790126a42e634fc38fec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:42 +0000
Subject: [PATCH 45/77] fix: empty dependency sections do not break the
 dependency map

---
 conda_recipe_manager/parser/recipe_reader_deps.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader_deps.py b/conda_recipe_manager/parser/recipe_reader_deps.py
index feefba4..16291d8 100644
--- a/conda_recipe_manager/parser/recipe_reader_deps.py
+++ b/conda_recipe_manager/parser/recipe_reader_deps.py
@@ -119,14 +119,17 @@ class RecipeReaderDeps(RecipeReader):
                 root_package = package
 
             requirements = cast(
-                dict[str, list[Optional[str]]],
+                dict[str, Optional[list[Optional[str]]]],
                 self.get_value(RecipeReader.append_to_path(path, "/requirements"), default={}, sub_vars=True),
             )
             dep_map[package] = []
+            # The requirements may be empty
+            if isinstance(requirements, str):
+                continue
             for section_str, deps in requirements.items():
                 section = str_to_dependency_section(section_str)
-                # Unrecognized sections will be skipped as "junk" data
-                if section is None:
+                # Unrecognized sections will be skipped as "junk" data. Sections may be empty.
+                if section is None or deps is None:
                     continue
 
                 for i, dep in enumerate(deps):
-- 
2.43.0


From ff9b9cc73bab29b2141862f36b382768779894d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:24 +0000
Subject: [PATCH 46/77] fix: Jinja lines with surrounding spaces or comments do
 not corrupt the recipe

---
 conda_recipe_manager/parser/_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index 618d8ff..e16d386 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -176,9 +176,9 @@ class Regex:
 
     ## Jinja regular expressions ##
     JINJA_V0_SUB: Final[re.Pattern[str]] = re.compile(r"{{\s*" + _JINJA_VAR_FUNCTION_PATTERN + r"\s*}}")
-    JINJA_V0_LINE: Final[re.Pattern[str]] = re.compile(r"({%.*%}|{#.*#})\n")
+    JINJA_V0_LINE: Final[re.Pattern[str]] = re.compile(r"^[^\S\n]*({%.*%}|{#.*#})[^\S\n]*(?:#.*)?\n", re.MULTILINE)
     JINJA_V0_SET_LINE: Final[re.Pattern[str]] = re.compile(
-        r"{%\s*set\s*" + _JINJA_VAR_FUNCTION_PATTERN + r"\s*=.*%}\s*\n"
+        r"^[^\S\n]*{%\s*set\s*" + _JINJA_VAR_FUNCTION_PATTERN + r"\s*=.*%}[^\S\n]*(?:#.*)?\n", re.MULTILINE
     )
     # Useful for replacing the older `{{` JINJA substitution with the newer `${{` WITHOUT accidentally doubling-up the
     # newer syntax when multiple replacements are possible.
-- 
2.43.0


From 136b68f45800d2585c6bc6b133697749c880847c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:41 +0000
Subject: [PATCH 47/77] fix: get_variable_references finds uses in multiline
 strings

---
 conda_recipe_manager/parser/recipe_reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index cb98599..fff586a 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -1137,8 +1137,9 @@ class RecipeReader(IsModifiable):
         var_re: Final[re.Pattern[str]] = _init_re()
 
         def _collect_var_refs(node: Node, path: StrStack) -> None:
-            # Variables can only be found inside string values.
-            if isinstance(node.value, str) and var_re.search(node.value):
+            # Variables can only be found inside string values. Multiline strings are stored as lists of lines.
+            lines = node.value if isinstance(node.value, list) else [node.value]
+            if any(isinstance(line, str) and var_re.search(line) for line in lines):
                 path_list.append(stack_path_to_str(path))
 
         traverse_all(self._root, _collect_var_refs)
-- 
2.43.0


From fefeb2020c10cbf98c45d6ba112b1ca120bc7e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:21 +0000
Subject: [PATCH 48/77] fix: converting a false value with a selector does not
 turn it into true

---
 conda_recipe_manager/parser/recipe_parser_convert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser_convert.py b/conda_recipe_manager/parser/recipe_parser_convert.py
index 14cfc50..e2dd9b7 100644
--- a/conda_recipe_manager/parser/recipe_parser_convert.py
+++ b/conda_recipe_manager/parser/recipe_parser_convert.py
@@ -219,10 +219,10 @@ class RecipeParserConvert(RecipeParser):
                 patch: JsonPatchType = {
                     "op": "replace",
                     "path": selector_path,
-                    "value": "${{ true if " + bool_expression + " }}",
+                    "value": "${{ " + ("false" if info.node.value is False else "true") + f" if {bool_expression} }}}}",
                 }
                 # `skip` is special and can be a single boolean expression or a list of boolean expressions.
-                if selector_path.endswith("/build/skip"):
+                if selector_path.endswith("/build/skip") and info.node.value is not False:
                     patch["value"] = bool_expression
                 if not isinstance(info.node.value, bool):
                     # CEP-13 states that ONLY list members may use the `if/then/else` blocks
-- 
2.43.0


From 512326880b960e8a9212cf4480d6671d8d36278c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:39 +0000
Subject: [PATCH 49/77] fix: selectors found on sections are reported when they
 can not be converted

---
 .../parser/recipe_parser_convert.py                 | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_parser_convert.py b/conda_recipe_manager/parser/recipe_parser_convert.py
index e2dd9b7..f237520 100644
--- a/conda_recipe_manager/parser/recipe_parser_convert.py
+++ b/conda_recipe_manager/parser/recipe_parser_convert.py
@@ -13,7 +13,7 @@ from conda_recipe_manager.parser._types import ROOT_NODE_VALUE, CanonicalSortOrd
 from conda_recipe_manager.parser._utils import search_any_regex, set_key_conditionally, stack_path_to_str
 from conda_recipe_manager.parser.enums import SchemaVersion
 from conda_recipe_manager.parser.recipe_parser import RecipeParser
-from conda_recipe_manager.parser.types import CURRENT_RECIPE_SCHEMA_FORMAT
+from conda_recipe_manager.parser.types import CURRENT_RECIPE_SCHEMA_FORMAT, MultilineVariant
 from conda_recipe_manager.types import JsonPatchType, JsonType, MessageCategory, MessageTable, Primitives, SentinelType
 
 
@@ -184,6 +184,17 @@ class RecipeParserConvert(RecipeParser):
                 # Selectors can be applied to the parent node if they appear on the same line. We'll ignore these when
                 # building replacements.
                 if not info.node.is_leaf():
+                    # CEP-13 states that ONLY list members may use the `if/then/else` blocks. This also applies to keys
+                    # of collections and multiline strings, which do not share their line with a value.
+                    if not info.node.is_collection_element() and not (
+                        info.node.is_single_key()
+                        and not info.node.children[0].list_member_flag
+                        and info.node.children[0].multiline_variant == MultilineVariant.NONE
+                    ):
+                        self._msg_tbl.add_message(
+                            MessageCategory.WARNING,
+                            f"A non-list item had a selector at: {stack_path_to_str(info.path)}",
+                        )
                     continue
 
                 # Strip the []'s around the selector
-- 
2.43.0


From f4634eea65f65748fb3221a97d06a0622df21252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:35 +0000
Subject: [PATCH 50/77] fix: strings that contain ': ' or ' #' are rendered and
 read with quotes

---
 conda_recipe_manager/parser/_types.py        |  2 ++
 conda_recipe_manager/parser/_utils.py        | 10 +++++++++-
 conda_recipe_manager/parser/recipe_reader.py |  7 ++++++-
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index e16d386..25a8135 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -210,6 +210,8 @@ class Regex:
     # Detects the 6 common variants (3 |'s, 3 >'s). See this guide for more info:
     #   https://stackoverflow.com/questions/3790454/how-do-i-break-a-string-in-yaml-over-multiple-lines/21699210
     MULTILINE: Final[re.Pattern[str]] = re.compile(r"^\s*.*:\s+(\||>)(\+|\-)?(\s*|\s+#.*)")
+    # Strings that YAML does not read as a string, unless they are quoted
+    AMBIGUOUS_PLAIN_STRING: Final[re.Pattern[str]] = re.compile(r":(\s|$)|(^|\s)#")
     # Group where the "variant" string is identified
     MULTILINE_VARIANT_CAPTURE_GROUP_CHAR: Final[int] = 1
     MULTILINE_VARIANT_CAPTURE_GROUP_SUFFIX: Final[int] = 2
diff --git a/conda_recipe_manager/parser/_utils.py b/conda_recipe_manager/parser/_utils.py
index 68d8939..47f3916 100644
--- a/conda_recipe_manager/parser/_utils.py
+++ b/conda_recipe_manager/parser/_utils.py
@@ -170,7 +170,15 @@ def stringify_yaml(
         return "false"
     # Handle special string quote cases
     if isinstance(val, str):
-        return quote_special_strings(val, multiline_variant)
+        quoted: Final[str] = quote_special_strings(val, multiline_variant)
+        # Outside of JINJA substitutions, `: ` and ` #` would start a value or a comment if the string is not quoted.
+        if (
+            multiline_variant == MultilineVariant.NONE
+            and quoted == val
+            and Regex.AMBIGUOUS_PLAIN_STRING.search(Regex.JINJA_V0_SUB.sub("", val))
+        ):
+            return json.dumps(val, ensure_ascii=False)
+        return quoted
     return val
 
 
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index fff586a..0dde0df 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -101,7 +101,7 @@ class RecipeReader(IsModifiable):
             # Rendering a string re-parses it as YAML, so quotes dropped by the YAML parser need to be restored.
             return RecipeReader._parse_yaml_recursive_sub(
                 out,
-                lambda d: parser._render_jinja_vars(quote_special_strings(d)),  # pylint: disable=protected-access
+                lambda d: parser._render_jinja_vars(str(stringify_yaml(d))),  # pylint: disable=protected-access
             )
 
         # Our first attempt handles special string cases that require quotes that the YAML parser drops. If that fails,
@@ -916,12 +916,17 @@ class RecipeReader(IsModifiable):
                     return self._render_jinja_vars(multiline_str)
                 return cast(JsonType, yaml.load(multiline_str, Loader=SafeLoader))
             return_value = cast(Primitives, node.children[0].value)
+            # Strings are parsed below. Quotes dropped by the YAML parser need to be restored.
+            if isinstance(return_value, str):
+                return_value = stringify_yaml(return_value)
             # Lists containing 1 value are re-wrapped for strings below.
             if node.children[0].list_member_flag and not isinstance(return_value, str):
                 return [return_value]
         # Leaf nodes can return their value directly
         elif node.is_leaf():
             return_value = cast(Primitives, node.value)
+            if isinstance(return_value, str):
+                return_value = stringify_yaml(return_value)
         else:
             # NOTE: Traversing the tree and generating our own data structures will be more efficient than rendering and
             # leveraging the YAML parser, BUT this method re-uses code and is easier to maintain.
-- 
2.43.0


From ad04a1947a9bf572238ef8ed7cdf102b76f87b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:00 +0000
Subject: [PATCH 51/77] fix: a '#' in a quoted string does not start a comment

---
 conda_recipe_manager/parser/_types.py        | 4 ++++
 conda_recipe_manager/parser/recipe_reader.py | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index 25a8135..2c2e9e8 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -216,3 +216,7 @@ class Regex:
     MULTILINE_VARIANT_CAPTURE_GROUP_CHAR: Final[int] = 1
     MULTILINE_VARIANT_CAPTURE_GROUP_SUFFIX: Final[int] = 2
     DETECT_TRAILING_COMMENT: Final[re.Pattern[str]] = re.compile(r"(\s)+(#)")
+    # Matches a line up to the end of its quoted value, which may contain a `#` that does not start a comment
+    QUOTED_VALUE: Final[re.Pattern[str]] = re.compile(
+        r"(?:-\s+)*(?:[^\s\"'#:][^#:\"']*:\s+)?(?:\"(?:[^\"\\]|\\.)*\"|'(?:[^']|'')*')"
+    )
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 0dde0df..1fd211c 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -155,7 +155,8 @@ class RecipeReader(IsModifiable):
             return Node(comment=s)
         # There is a comment at the end of the line if a `#` symbol is found with leading whitespace before it. If it is
         # "touching" a character on the left-side, it is just part of a string.
-        comment_re_result = Regex.DETECT_TRAILING_COMMENT.search(s)
+        quoted_value = Regex.QUOTED_VALUE.match(s)
+        comment_re_result = Regex.DETECT_TRAILING_COMMENT.search(s, quoted_value.end() if quoted_value else 0)
         if comment_re_result is not None:
             # Group 0 is the whole match, Group 1 is the leading whitespace, Group 2 locates the `#`
             comment = s[comment_re_result.start(2) :]
-- 
2.43.0


From ad3c1cea3c831a5e87843f114efadb961e3b7f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:43 +0000
Subject: [PATCH 52/77] fix: bump-recipe reports recipe files that are not text

---
 conda_recipe_manager/commands/bump_recipe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/commands/bump_recipe.py b/conda_recipe_manager/commands/bump_recipe.py
index d897d54..fbb6a09 100644
--- a/conda_recipe_manager/commands/bump_recipe.py
+++ b/conda_recipe_manager/commands/bump_recipe.py
@@ -374,7 +374,7 @@ def bump_recipe(
 
     try:
         recipe_content = Path(recipe_file_path).read_text(encoding="utf-8")
-    except IOError:
+    except (IOError, UnicodeDecodeError):
         log.error("Couldn't read the given recipe file: %s", recipe_file_path)
         sys.exit(ExitCode.IO_ERROR)
 
-- 
2.43.0


From 3da9a5d8d419edde06532bb0e382ec2bcbc7612f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:43 +0000
Subject: [PATCH 53/77] fix: patch reports files that can not be read

---
 conda_recipe_manager/commands/patch.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/commands/patch.py b/conda_recipe_manager/commands/patch.py
index 587fcad..ccb486a 100644
--- a/conda_recipe_manager/commands/patch.py
+++ b/conda_recipe_manager/commands/patch.py
@@ -30,13 +30,16 @@ def _pre_patch_validate(
     """
     try:
         contents_json = cast(JsonPatchType | list[JsonPatchType], json.loads(json_patch_file_path.read_text()))
-    except json.JSONDecodeError:
+    except (json.JSONDecodeError, UnicodeDecodeError):
         print(f"Non-JSON file provided: {json_patch_file_path}")
         sys.exit(ExitCode.JSON_ERROR)
+    except IOError:
+        print_err(f"Couldn't read the given patch file: {json_patch_file_path}")
+        sys.exit(ExitCode.IO_ERROR)
 
     try:
         contents_recipe = recipe_file_path.read_text()
-    except IOError:
+    except (IOError, UnicodeDecodeError):
         print_err(f"Couldn't read the given recipe file: {recipe_file_path}")
         sys.exit(ExitCode.IO_ERROR)  # untested
 
-- 
2.43.0


From 9c80131898fda8dbe48b7951b71ce0740b228c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:05 +0000
Subject: [PATCH 54/77] fix: a source that is not a collection of keys is
 unsupported

---
 conda_recipe_manager/fetcher/artifact_fetcher.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conda_recipe_manager/fetcher/artifact_fetcher.py b/conda_recipe_manager/fetcher/artifact_fetcher.py
index e1384ed..c504752 100644
--- a/conda_recipe_manager/fetcher/artifact_fetcher.py
+++ b/conda_recipe_manager/fetcher/artifact_fetcher.py
@@ -79,6 +79,9 @@ def from_recipe(recipe: RecipeReader, ignore_unsupported: bool = False) -> dict[
         recipe_name = "Unknown Recipe"
 
     for i, parsed_source in enumerate(parsed_sources):
+        # Anything but a collection of keys is not a source, see below.
+        if not isinstance(parsed_source, dict):
+            parsed_source = {}
         # NOTE: `optional_str()` is used to force evaluation of potentially unknown types to strings for input
         #       sanitation purposes.
         # NOTE: `url` is the same for both V0 and V1 formats.
-- 
2.43.0


From 96f40884f4a378cb34ed2a663329e86bc1d39f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:05 +0000
Subject: [PATCH 55/77] fix: an HTTP error status is a failed download

---
 conda_recipe_manager/fetcher/http_artifact_fetcher.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conda_recipe_manager/fetcher/http_artifact_fetcher.py b/conda_recipe_manager/fetcher/http_artifact_fetcher.py
index 0c3ac94..53de98a 100644
--- a/conda_recipe_manager/fetcher/http_artifact_fetcher.py
+++ b/conda_recipe_manager/fetcher/http_artifact_fetcher.py
@@ -107,6 +107,9 @@ class HttpArtifactFetcher(BaseArtifactFetcher):
         # Buffered download approach
         try:
             response = requests.get(str(self._archive_url), stream=True, timeout=_DOWNLOAD_TIMEOUT)
+            # Responses are false on client and server errors.
+            if not response:
+                raise requests.exceptions.HTTPError(f"HTTP status code: {response.status_code}")
             with open(self._archive_path, "wb") as archive:
                 for chunk in cast(Iterator[bytes], response.iter_content(chunk_size=1024)):
                     if not chunk:
-- 
2.43.0


From dd4ca2cdf7380a49434b66a53584e3a70cbaf310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:11 +0000
Subject: [PATCH 56/77] fix: fetching again does not mix the sources with those
 of an earlier attempt

---
 conda_recipe_manager/fetcher/http_artifact_fetcher.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/conda_recipe_manager/fetcher/http_artifact_fetcher.py b/conda_recipe_manager/fetcher/http_artifact_fetcher.py
index 53de98a..b3bf12f 100644
--- a/conda_recipe_manager/fetcher/http_artifact_fetcher.py
+++ b/conda_recipe_manager/fetcher/http_artifact_fetcher.py
@@ -5,6 +5,7 @@
 from __future__ import annotations
 
 import lzma
+import shutil
 import tarfile
 import zipfile
 import zlib
@@ -70,6 +71,9 @@ class HttpArtifactFetcher(BaseArtifactFetcher):
         :raises FetchError: If an issue occurred while extracting the archive.
         """
         try:
+            # A previous attempt may have left files behind.
+            if self._uncompressed_archive_path.exists():
+                shutil.rmtree(self._uncompressed_archive_path)
             match self._archive_path:
                 case path if tarfile.is_tarfile(path):
                     self._archive_type = ArtifactArchiveType.TARBALL
-- 
2.43.0


From ab0ed81c46b562f2305a5b4bc3cf0f26c1fafb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:41 +0000
Subject: [PATCH 57/77] fix: git targets that share their name with a file can
 be checked out

---
 conda_recipe_manager/fetcher/git_artifact_fetcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/fetcher/git_artifact_fetcher.py b/conda_recipe_manager/fetcher/git_artifact_fetcher.py
index fca8fd1..34d58b2 100644
--- a/conda_recipe_manager/fetcher/git_artifact_fetcher.py
+++ b/conda_recipe_manager/fetcher/git_artifact_fetcher.py
@@ -104,7 +104,7 @@ class GitArtifactFetcher(BaseArtifactFetcher):
         git_target: Final[Optional[str]] = self._resolve_checkout_target()
         if git_target:
             try:
-                repo.git.checkout(git_target, force=True)
+                repo.git.checkout(git_target, "--", force=True)
             except git_exceptions.GitError as e:
                 raise FetchError(f"Failed to git checkout target: {git_target}") from e
 
-- 
2.43.0


From a45dfdadd54415a792acc3332803a8ed39b89eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:34 +0000
Subject: [PATCH 58/77] fix: Python files with a byte order mark or a declared
 encoding are scanned

---
 conda_recipe_manager/scanner/dependency/py_dep_scanner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/scanner/dependency/py_dep_scanner.py b/conda_recipe_manager/scanner/dependency/py_dep_scanner.py
index 553f4e8..8cfefef 100644
--- a/conda_recipe_manager/scanner/dependency/py_dep_scanner.py
+++ b/conda_recipe_manager/scanner/dependency/py_dep_scanner.py
@@ -96,7 +96,8 @@ class PythonDependencyScanner(BaseDependencyScanner):
         project_modules: Final[set[str]] = self._get_project_modules()
         # Adapted from:
         #   https://stackoverflow.com/questions/9008451/python-easy-way-to-read-all-import-statements-from-py-module
-        root = ast.parse(file.read_text(), file)
+        # The raw bytes are parsed so that byte order marks and encoding declarations are respected.
+        root = ast.parse(file.read_bytes(), file)
 
         for node in ast.walk(root):
             if not isinstance(node, (ast.Import, ast.ImportFrom)):
-- 
2.43.0


From 2ca871b287760c4cb8377eb25d888e31f2d07403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:34 +0000
Subject: [PATCH 59/77] fix: a pyproject file that is not text is reported

---
 .../scanner/dependency/pyproject_dep_scanner.py               | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/scanner/dependency/pyproject_dep_scanner.py b/conda_recipe_manager/scanner/dependency/pyproject_dep_scanner.py
index 082f225..d840162 100644
--- a/conda_recipe_manager/scanner/dependency/pyproject_dep_scanner.py
+++ b/conda_recipe_manager/scanner/dependency/pyproject_dep_scanner.py
@@ -43,10 +43,10 @@ class PyProjectDependencyScanner(BaseDependencyScanner):
         try:
             with open(self._src_dir / self._project_fn, "rb") as f:
                 data = cast(dict[str, dict[str, list[str] | dict[str, list[str]]]], tomllib.load(f))
-        except (FileNotFoundError, tomllib.TOMLDecodeError) as e:
+        except (FileNotFoundError, UnicodeDecodeError, tomllib.TOMLDecodeError) as e:
             if isinstance(e, FileNotFoundError):
                 self._msg_tbl.add_message(MessageCategory.EXCEPTION, f"`{self._project_fn}` file not found.")
-            if isinstance(e, tomllib.TOMLDecodeError):
+            if isinstance(e, (UnicodeDecodeError, tomllib.TOMLDecodeError)):
                 self._msg_tbl.add_message(MessageCategory.EXCEPTION, f"Could not parse `{self._project_fn}` file.")
             return set()
 
-- 
2.43.0


From e874d805187b1c2b58d8ae75137f855fee9ec845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:55 +0000
Subject: [PATCH 60/77] fix: packages without dependencies can be plotted

---
 conda_recipe_manager/grapher/recipe_graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conda_recipe_manager/grapher/recipe_graph.py b/conda_recipe_manager/grapher/recipe_graph.py
index 7f7f3c9..f08b142 100644
--- a/conda_recipe_manager/grapher/recipe_graph.py
+++ b/conda_recipe_manager/grapher/recipe_graph.py
@@ -97,6 +97,9 @@ class RecipeGraph:
                     continue
                 self._name_to_sha256[package_name] = sha
                 self._package_stats.total_packages += 1
+                # Packages may not have any dependencies, nor any other package that depends on them.
+                self._build_graph.add_node(package_name)  # type: ignore[misc]
+                self._test_graph.add_node(package_name)  # type: ignore[misc]
                 for dep in deps:
                     match dep.type:
                         # Build graph
-- 
2.43.0


From 1a171df8d3abb4de88317c84b0402a0794caedd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:49 +0000
Subject: [PATCH 61/77] fix: removing a selector keeps the rest of its comment
 as it is

---
 conda_recipe_manager/parser/recipe_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 423b42d..56edc26 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -214,7 +214,7 @@ class RecipeParser(RecipeReader):
         selector = search_results.group(0)
         comment = node.comment.replace(selector, "")
         # Sanitize potential edge-case scenarios after a removal
-        comment = comment.replace("#  ", "# ").replace("# # ", "# ")
+        comment = re.sub(r"^#\s+(#\s+)?", "# ", comment)
         # Detect and remove empty comments. Other comments should remain intact.
         if comment.strip() == "#":
             comment = ""
-- 
2.43.0


From 2bde65b3e7d752d0f117f16e254ec55a9f6927bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:51 +0000
Subject: [PATCH 62/77] fix: empty strings are rendered with quotes and not
 read as null

---
 conda_recipe_manager/parser/_utils.py        | 3 +++
 conda_recipe_manager/parser/recipe_reader.py | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/_utils.py b/conda_recipe_manager/parser/_utils.py
index 47f3916..345346b 100644
--- a/conda_recipe_manager/parser/_utils.py
+++ b/conda_recipe_manager/parser/_utils.py
@@ -168,6 +168,9 @@ def stringify_yaml(
         if val:
             return "true"
         return "false"
+    # Without quotes, an empty string would be read as null
+    if val == "" and multiline_variant == MultilineVariant.NONE:
+        return '""'
     # Handle special string quote cases
     if isinstance(val, str):
         quoted: Final[str] = quote_special_strings(val, multiline_variant)
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 1fd211c..162984f 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -366,7 +366,8 @@ class RecipeReader(IsModifiable):
             #   - Ensures the returned value is YAML-parsable
             elif self._schema_version == SchemaVersion.V0:
                 s = re.sub(r"(?<!\$)" + re.escape(match), lambda m: f"${m.group()}", s)
-        return cast(JsonType, yaml.load(s, Loader=SafeLoader))
+        # An empty string is not null
+        return cast(JsonType, yaml.load(s, Loader=SafeLoader)) if s else s
 
     def _init_vars_tbl(self) -> None:
         """
-- 
2.43.0


From d7a010d3f55fbf4619f7a34951a66261731e5d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:11 +0000
Subject: [PATCH 63/77] fix: the conversion of environ[] stops at the first
 closing quote

The key was matched up to the last quote and bracket of the line, so that a
selector (or a second variable) that follows on the line became a part of it.
The replacement also hit an earlier os.environ[] of the same key.
---
 conda_recipe_manager/parser/_types.py              |  2 +-
 .../parser/recipe_parser_convert.py                | 14 +-------------
 2 files changed, 2 insertions(+), 14 deletions(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index 2c2e9e8..38ffba2 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -143,7 +143,7 @@ class Regex:
     ## Pre-process conversion tooling regular expressions ##
     # Finds `environ[]` used by a some recipe files. Requires a whitespace character to prevent matches with
     # `os.environ[]`, which is very rare.
-    PRE_PROCESS_ENVIRON: Final[re.Pattern[str]] = re.compile(r"\s+environ\[(\"|')(.*)(\"|')\]")
+    PRE_PROCESS_ENVIRON: Final[re.Pattern[str]] = re.compile(r"(?<=\s)environ\[(\"|')(.*?)(\"|')\]")
     # Finds commonly used variants of `{{ hash_type }}:` which is a substitution for the `sha256` field
     PRE_PROCESS_JINJA_HASH_TYPE_KEY: Final[re.Pattern[str]] = re.compile(
         r"'{0,1}\{\{ (hash_type|hash|hashtype) \}\}'{0,1}:"
diff --git a/conda_recipe_manager/parser/recipe_parser_convert.py b/conda_recipe_manager/parser/recipe_parser_convert.py
index f237520..1c6cd63 100644
--- a/conda_recipe_manager/parser/recipe_parser_convert.py
+++ b/conda_recipe_manager/parser/recipe_parser_convert.py
@@ -738,19 +738,7 @@ class RecipeParserConvert(RecipeParser):
         # NOTE:
         #   - This is mostly used by Bioconda recipes and R-based-packages in the `license_file` field.
         #   - From our search, it looks like we never deal with more than one set of outer quotes within the brackets
-        replacements: list[tuple[str, str]] = []
-        for groups in cast(list[str], Regex.PRE_PROCESS_ENVIRON.findall(content)):
-            # Each match should return ["<quote char>", "<key>", "<quote_char>"]
-            quote_char = groups[0]
-            key = groups[1]
-            replacements.append(
-                (
-                    f"environ[{quote_char}{key}{quote_char}]",
-                    f"env.get({quote_char}{key}{quote_char})",
-                )
-            )
-        for old, new in replacements:
-            content = content.replace(old, new, 1)
+        content = Regex.PRE_PROCESS_ENVIRON.sub(r"env.get(\1\2\3)", content)
 
         # Replace `{{ hash_type }}:` with the value of `hash_type`, which is likely `sha256`. This is an uncommon
         # practice that is not part of the V1 specification. Currently, about 70 AnacondaRecipes and conda-forge files
-- 
2.43.0


From c1664397e60896da83d7dd16a769869d31e5234c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:48 +0000
Subject: [PATCH 64/77] fix: every Jinja method call of a line is converted

The expression that turns foo.lower() into a filter reached over the braces of
neighbouring substitutions, so that only one call of a line was converted, and
method calls that are not at the end of a substitution, as well as text in
comments, were changed.
---
 conda_recipe_manager/parser/_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index 38ffba2..4d1dc52 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -154,7 +154,7 @@ class Regex:
         r"(\{%\s*set.*=.*)\.(.*\(.*\)\s*%\})"
     )
     PRE_PROCESS_JINJA_DOT_FUNCTION_IN_SUBSTITUTION: Final[re.Pattern[str]] = re.compile(
-        r"(\{\{\s*[a-zA-Z0-9_]*.*)\.([a-zA-Z0-9_]*\(.*\)\s*\}\})"
+        r"(\{\{\s*[a-zA-Z0-9_]*[^{}\n]*)\.([a-zA-Z0-9_]*\([^{}\n]*\)\s*\}\})"
     )
     # Strips empty parenthesis artifacts on functions like `| lower`
     PRE_PROCESS_JINJA_DOT_FUNCTION_STRIP_EMPTY_PARENTHESIS: Final[re.Pattern[str]] = re.compile(
-- 
2.43.0


From 2d07574c3d537dfb6c023657a1b0629287f58ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:01 +0000
Subject: [PATCH 65/77] fix: strings with control characters, surrounding
 spaces or YAML markers keep their quotes

For example "a\nb", " a ", ">=1", "{a}" and "..." were rendered without
quotes, which changes or breaks the recipe, and could not be read.
---
 conda_recipe_manager/parser/_types.py | 3 ++-
 conda_recipe_manager/parser/_utils.py | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index 4d1dc52..e032471 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -211,7 +211,8 @@ class Regex:
     #   https://stackoverflow.com/questions/3790454/how-do-i-break-a-string-in-yaml-over-multiple-lines/21699210
     MULTILINE: Final[re.Pattern[str]] = re.compile(r"^\s*.*:\s+(\||>)(\+|\-)?(\s*|\s+#.*)")
     # Strings that YAML does not read as a string, unless they are quoted
-    AMBIGUOUS_PLAIN_STRING: Final[re.Pattern[str]] = re.compile(r":(\s|$)|(^|\s)#")
+    AMBIGUOUS_PLAIN_STRING: Final[re.Pattern[str]] = re.compile(r":(\s|$)|(^|\s)#|[\x00-\x1f\x7f]")
+    AMBIGUOUS_PLAIN_STRING_ENDS: Final[re.Pattern[str]] = re.compile(r"^[\s|>`]|^\{(?!\{)|\s$|^(\.\.\.|<<|=)$")
     # Group where the "variant" string is identified
     MULTILINE_VARIANT_CAPTURE_GROUP_CHAR: Final[int] = 1
     MULTILINE_VARIANT_CAPTURE_GROUP_SUFFIX: Final[int] = 2
diff --git a/conda_recipe_manager/parser/_utils.py b/conda_recipe_manager/parser/_utils.py
index 345346b..a3b234b 100644
--- a/conda_recipe_manager/parser/_utils.py
+++ b/conda_recipe_manager/parser/_utils.py
@@ -175,10 +175,14 @@ def stringify_yaml(
     if isinstance(val, str):
         quoted: Final[str] = quote_special_strings(val, multiline_variant)
         # Outside of JINJA substitutions, `: ` and ` #` would start a value or a comment if the string is not quoted.
+        # Without quotes, control characters, surrounding whitespace, and block or flow markers are also lost.
         if (
             multiline_variant == MultilineVariant.NONE
             and quoted == val
-            and Regex.AMBIGUOUS_PLAIN_STRING.search(Regex.JINJA_V0_SUB.sub("", val))
+            and (
+                Regex.AMBIGUOUS_PLAIN_STRING.search(Regex.JINJA_V0_SUB.sub("", val))
+                or Regex.AMBIGUOUS_PLAIN_STRING_ENDS.search(val)
+            )
         ):
             return json.dumps(val, ensure_ascii=False)
         return quoted
-- 
2.43.0


From f495976ced2221c0950bfebd05feeec54d227954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:40 +0000
Subject: [PATCH 66/77] fix: strings that resemble booleans, null or dates keep
 their quotes

---
 conda_recipe_manager/parser/_types.py | 4 ++++
 conda_recipe_manager/parser/_utils.py | 1 +
 2 files changed, 5 insertions(+)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index e032471..b7f43b6 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -213,6 +213,10 @@ class Regex:
     # Strings that YAML does not read as a string, unless they are quoted
     AMBIGUOUS_PLAIN_STRING: Final[re.Pattern[str]] = re.compile(r":(\s|$)|(^|\s)#|[\x00-\x1f\x7f]")
     AMBIGUOUS_PLAIN_STRING_ENDS: Final[re.Pattern[str]] = re.compile(r"^[\s|>`]|^\{(?!\{)|\s$|^(\.\.\.|<<|=)$")
+    # Strings that YAML reads as a boolean, null or a date, unless they are quoted
+    AMBIGUOUS_PLAIN_STRING_TYPE: Final[re.Pattern[str]] = re.compile(
+        r"^(~|null|Null|NULL|[Tt]rue|TRUE|[Ff]alse|FALSE|[Yy]es|YES|[Nn]o|NO|[Oo]n|ON|[Oo]ff|OFF|\d{4}-\d\d?-\d\d?([Tt\s].*)?)$"
+    )
     # Group where the "variant" string is identified
     MULTILINE_VARIANT_CAPTURE_GROUP_CHAR: Final[int] = 1
     MULTILINE_VARIANT_CAPTURE_GROUP_SUFFIX: Final[int] = 2
diff --git a/conda_recipe_manager/parser/_utils.py b/conda_recipe_manager/parser/_utils.py
index a3b234b..0fa2e1b 100644
--- a/conda_recipe_manager/parser/_utils.py
+++ b/conda_recipe_manager/parser/_utils.py
@@ -182,6 +182,7 @@ def stringify_yaml(
             and (
                 Regex.AMBIGUOUS_PLAIN_STRING.search(Regex.JINJA_V0_SUB.sub("", val))
                 or Regex.AMBIGUOUS_PLAIN_STRING_ENDS.search(val)
+                or Regex.AMBIGUOUS_PLAIN_STRING_TYPE.search(val)
             )
         ):
             return json.dumps(val, ensure_ascii=False)
-- 
2.43.0


From 0716b258d788df61f7c2cd0a2322f6da3efdfb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:30 +0000
Subject: [PATCH 67/77] fix: comments and quoted strings that contain ': |' do
 not start a multiline string

The marker of a multiline string is now expected at the end of a line (and its
optional indentation indicator is told apart from its chomping indicator).
---
 conda_recipe_manager/parser/_types.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index b7f43b6..8733a13 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -209,7 +209,10 @@ class Regex:
     SELECTOR: Final[re.Pattern[str]] = re.compile(r"\[.*\]")
     # Detects the 6 common variants (3 |'s, 3 >'s). See this guide for more info:
     #   https://stackoverflow.com/questions/3790454/how-do-i-break-a-string-in-yaml-over-multiple-lines/21699210
-    MULTILINE: Final[re.Pattern[str]] = re.compile(r"^\s*.*:\s+(\||>)(\+|\-)?(\s*|\s+#.*)")
+    # The marker is the whole value of a line, i.e. comments and (quoted) strings may contain `: |`.
+    MULTILINE: Final[re.Pattern[str]] = re.compile(
+        r"^\s*(?!#)(?:(?!\s#).)*:\s+(\||>)(?:[1-9](?=[+-]?(?:\s|$)))?(\+|\-)?[1-9]?\s*(?:\s#.*)?$"
+    )
     # Strings that YAML does not read as a string, unless they are quoted
     AMBIGUOUS_PLAIN_STRING: Final[re.Pattern[str]] = re.compile(r":(\s|$)|(^|\s)#|[\x00-\x1f\x7f]")
     AMBIGUOUS_PLAIN_STRING_ENDS: Final[re.Pattern[str]] = re.compile(r"^[\s|>`]|^\{(?!\{)|\s$|^(\.\.\.|<<|=)$")
-- 
2.43.0


From 6eb2e6d77da73dbeb4a65f6f0358d5a9046e9320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:28 +0000
Subject: [PATCH 68/77] fix: the indentation of lines and comments does not
 change what is read

Comments that are not aligned with the line they precede, lists that are aligned
with their key and levels that are indented by other than two spaces silently
corrupted the recipe. The indentation is now normalized before it is parsed.
---
 conda_recipe_manager/parser/_types.py        | 11 ++-
 conda_recipe_manager/parser/_utils.py        | 90 +++++++++++++++++++-
 conda_recipe_manager/parser/recipe_reader.py |  3 +-
 3 files changed, 100 insertions(+), 4 deletions(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index 8733a13..06ec26d 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -207,6 +207,14 @@ class Regex:
     }
 
     SELECTOR: Final[re.Pattern[str]] = re.compile(r"\[.*\]")
+    # Matches the mark of a list member and the key of a mapping. Used to determine how deep a line is nested.
+    LIST_MARK: Final[re.Pattern[str]] = re.compile(r"^-(?:\s+|$)")
+    KEY_MARK: Final[re.Pattern[str]] = re.compile(
+        r"^(?:\"[^\"]*\"|'[^']*'|[^\s\"'#\[](?:(?!\s#).)*?)\s*:(?:\s|$)"
+    )
+    EMPTY_KEY: Final[re.Pattern[str]] = re.compile(
+        r"^(?:\"[^\"]*\"|'[^']*'|[^\s\"'#\[](?:(?!\s#).)*?)\s*:\s*(?:\s#.*)?$"
+    )
     # Detects the 6 common variants (3 |'s, 3 >'s). See this guide for more info:
     #   https://stackoverflow.com/questions/3790454/how-do-i-break-a-string-in-yaml-over-multiple-lines/21699210
     # The marker is the whole value of a line, i.e. comments and (quoted) strings may contain `: |`.
@@ -218,7 +226,8 @@ class Regex:
     AMBIGUOUS_PLAIN_STRING_ENDS: Final[re.Pattern[str]] = re.compile(r"^[\s|>`]|^\{(?!\{)|\s$|^(\.\.\.|<<|=)$")
     # Strings that YAML reads as a boolean, null or a date, unless they are quoted
     AMBIGUOUS_PLAIN_STRING_TYPE: Final[re.Pattern[str]] = re.compile(
-        r"^(~|null|Null|NULL|[Tt]rue|TRUE|[Ff]alse|FALSE|[Yy]es|YES|[Nn]o|NO|[Oo]n|ON|[Oo]ff|OFF|\d{4}-\d\d?-\d\d?([Tt\s].*)?)$"
+        r"^(~|null|Null|NULL|[Tt]rue|TRUE|[Ff]alse|FALSE|[Yy]es|YES|[Nn]o|NO|[Oo]n|ON|[Oo]ff|OFF"
+        r"|\d{4}-\d\d?-\d\d?([Tt\s].*)?)$"
     )
     # Group where the "variant" string is identified
     MULTILINE_VARIANT_CAPTURE_GROUP_CHAR: Final[int] = 1
diff --git a/conda_recipe_manager/parser/_utils.py b/conda_recipe_manager/parser/_utils.py
index 0fa2e1b..a128543 100644
--- a/conda_recipe_manager/parser/_utils.py
+++ b/conda_recipe_manager/parser/_utils.py
@@ -7,7 +7,7 @@ from __future__ import annotations
 import json
 import re
 from collections.abc import Iterable
-from typing import Final, cast
+from typing import Final, Optional, cast
 
 from conda_recipe_manager.parser._types import (
     RECIPE_MANAGER_SUB_MARKER,
@@ -16,7 +16,7 @@ from conda_recipe_manager.parser._types import (
     StrStack,
     StrStackImmutable,
 )
-from conda_recipe_manager.parser.types import TAB_AS_SPACES, MultilineVariant, NodeValue
+from conda_recipe_manager.parser.types import TAB_AS_SPACES, TAB_SPACE_COUNT, MultilineVariant, NodeValue
 from conda_recipe_manager.types import H, JsonType, SentinelType
 
 # Commonly used special characters that we need to ensure get quoted when rendered as a YAML string.
@@ -89,6 +89,92 @@ def num_tab_spaces(s: str) -> int:
     return cntr
 
 
+def normalize_indentation(lines: list[str]) -> list[str]:
+    """
+    Re-indents the lines of a recipe so that every level of nesting is indented by the same number of spaces, including
+    the members of a list. YAML is more permissive than that: levels may be indented by any number of spaces, lists may
+    be aligned with the key they belong to and comments may be indented in any way.
+
+    :param lines: Lines of a YAML file
+    :returns: Equivalent lines, indented by `TAB_SPACE_COUNT`
+    """
+    out: list[str] = []
+    # Stack of the levels that are currently open. Tracks the number of spaces found and the number of spaces to use. A
+    # list that is aligned with its key is nested half a space deeper than its key.
+    levels: list[tuple[float, int]] = []
+    # Comments that precede the current line
+    comments: list[str] = []
+    is_last_key_empty = False
+
+    def _flush_comments(next_indent: int) -> None:
+        max_indent = (levels[-1][1] if levels else 0) + (TAB_SPACE_COUNT if is_last_key_empty else 0)
+        for comment in comments:
+            if not comment:
+                out.append(comment)
+                continue
+            spaces = num_tab_spaces(comment)
+            indent = max((level for found, level in levels if found <= spaces), default=0)
+            if is_last_key_empty and spaces > levels[-1][0]:
+                indent = max_indent
+            # Comments never open a level and precede the line they are followed by.
+            max_indent = max(next_indent, min(indent, max_indent))
+            out.append(f"{' ' * max_indent}{comment.strip()}")
+        comments.clear()
+
+    idx = 0
+    while idx < len(lines):
+        line = lines[idx].rstrip()
+        idx += 1
+        if not line.strip() or line.lstrip().startswith("#"):
+            comments.append(line)
+            continue
+
+        spaces: float = num_tab_spaces(line)
+        open_levels = list(levels)
+        text = line.strip()
+        is_list = bool(Regex.LIST_MARK.match(text))
+        if is_list and (
+            any(found == spaces + 0.5 for found, _ in levels)
+            or (is_last_key_empty and levels[-1][0] == spaces)
+        ):
+            spaces += 0.5
+        while open_levels and open_levels[-1][0] > spaces:
+            open_levels.pop()
+        if not open_levels or open_levels[-1][0] < spaces:
+            open_levels.append((spaces, open_levels[-1][1] + TAB_SPACE_COUNT if open_levels else 0))
+        indent = open_levels[-1][1]
+        _flush_comments(indent)
+        levels = open_levels
+
+        # The members of a mapping found in a list are aligned with its first key.
+        column = num_tab_spaces(line)
+        content = text
+        while mark := Regex.LIST_MARK.match(content):
+            column += mark.end()
+            content = content[mark.end() :]
+            if Regex.LIST_MARK.match(content) or Regex.KEY_MARK.match(content):
+                levels.append((column, levels[-1][1] + TAB_SPACE_COUNT))
+        is_last_key_empty = bool(Regex.EMPTY_KEY.match(content))
+        out.append(f"{' ' * indent}{Regex.LIST_MARK.sub('- ', text) if is_list else text}")
+
+        # The lines of multiline strings keep their indentation, relative to each other.
+        if Regex.MULTILINE.match(line):
+            base: Optional[int] = None
+            while idx < len(lines) and (not lines[idx].strip() or num_tab_spaces(lines[idx]) > levels[-1][0]):
+                if lines[idx].strip():
+                    found = num_tab_spaces(lines[idx])
+                    base = found if base is None else base
+                    # A line that is indented less than the string is a comment that follows the string.
+                    if found < base and lines[idx].lstrip().startswith("#"):
+                        break
+                    out.append(f"{' ' * (levels[-1][1] + TAB_SPACE_COUNT)}{lines[idx][min(base, found):]}")
+                else:
+                    out.append("")
+                idx += 1
+    _flush_comments(0)
+    return out
+
+
 def substitute_markers(s: str, subs: list[str]) -> str:
     """
     Given a string, replace substitution markers with the original Jinja template from a list of options.
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 162984f..d627191 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -27,6 +27,7 @@ from conda_recipe_manager.parser._types import (
 )
 from conda_recipe_manager.parser._utils import (
     dedupe_and_preserve_order,
+    normalize_indentation,
     normalize_multiline_strings,
     num_tab_spaces,
     quote_special_strings,
@@ -445,7 +446,7 @@ class RecipeReader(IsModifiable):
 
         # Iterate with an index variable, so we can handle multiline values
         line_idx = 0
-        lines = sanitized_yaml.splitlines()
+        lines = normalize_indentation(sanitized_yaml.splitlines())
         num_lines = len(lines)
         while line_idx < num_lines:
             line = lines[line_idx]
-- 
2.43.0


From c6b026dfc8de4e0ee0c6a83828f12c0a99f5caf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:42 +0000
Subject: [PATCH 69/77] fix: multiline strings can be members of a list

"- |" was read as an empty string with unrelated children and rendered as
"- :", and a multiline string that was patched into a list was rendered as a
Python list.
---
 conda_recipe_manager/parser/_types.py         |  2 +-
 .../parser/recipe_parser_convert.py           |  2 +
 conda_recipe_manager/parser/recipe_reader.py  | 55 +++++++++++++------
 3 files changed, 40 insertions(+), 19 deletions(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index 06ec26d..f9ce935 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -219,7 +219,7 @@ class Regex:
     #   https://stackoverflow.com/questions/3790454/how-do-i-break-a-string-in-yaml-over-multiple-lines/21699210
     # The marker is the whole value of a line, i.e. comments and (quoted) strings may contain `: |`.
     MULTILINE: Final[re.Pattern[str]] = re.compile(
-        r"^\s*(?!#)(?:(?!\s#).)*:\s+(\||>)(?:[1-9](?=[+-]?(?:\s|$)))?(\+|\-)?[1-9]?\s*(?:\s#.*)?$"
+        r"^\s*(?!#)(?:(?:(?!\s#).)*:|-)\s+(\||>)(?:[1-9](?=[+-]?(?:\s|$)))?(\+|\-)?[1-9]?\s*(?:\s#.*)?$"
     )
     # Strings that YAML does not read as a string, unless they are quoted
     AMBIGUOUS_PLAIN_STRING: Final[re.Pattern[str]] = re.compile(r":(\s|$)|(^|\s)#|[\x00-\x1f\x7f]")
diff --git a/conda_recipe_manager/parser/recipe_parser_convert.py b/conda_recipe_manager/parser/recipe_parser_convert.py
index 1c6cd63..eb77bd6 100644
--- a/conda_recipe_manager/parser/recipe_parser_convert.py
+++ b/conda_recipe_manager/parser/recipe_parser_convert.py
@@ -246,6 +246,8 @@ class RecipeParserConvert(RecipeParser):
                         "if": bool_expression,
                         "then": None if isinstance(info.node.value, SentinelType) else info.node.value,
                     }
+                    if info.node.multiline_variant != MultilineVariant.NONE:
+                        bool_object["then"] = self._v1_recipe.get_value(selector_path)
                     patch = {
                         "op": "replace",
                         "path": selector_path,
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index d627191..4eddaf1 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -505,8 +505,13 @@ class RecipeReader(IsModifiable):
                         # `+` keeps all of the other blank lines
                         if variant_sign == "+":
                             break
+                # The string may also be a member of a list.
+                if new_node.list_member_flag and not new_node.is_collection_element():
+                    new_node.value = multiline_node.value
+                    new_node.multiline_variant = multiline_node.multiline_variant
                 # The previous level is the key to this multi-line value, so we can safely reset it.
-                key_node.children = [multiline_node]
+                else:
+                    key_node.children = [multiline_node]
             if new_indent > cur_indent:
                 node_stack.append(last_node)
                 # Edge case: The first element of a list of objects that is NOT a 1-line key-value pair needs
@@ -636,6 +641,22 @@ class RecipeReader(IsModifiable):
         # TODO complete
         raise NotImplementedError
 
+    @staticmethod
+    def _render_list_member(node: Node, spaces: str, lines: list[str]) -> None:
+        """
+        Helper function that renders a member of a list that is not a collection.
+
+        :param node: Node to render
+        :param spaces: Indentation of the list
+        :param lines: Accumulated list of lines in the recipe file
+        """
+        if node.multiline_variant == MultilineVariant.NONE:
+            lines.append(f"{spaces}- {stringify_yaml(node.value)}  {node.comment}".rstrip())
+            return
+        lines.append(f"{spaces}- {node.multiline_variant}  {node.comment}".rstrip())
+        for val_line in cast(list[str], node.value):
+            lines.append(f"{spaces}{TAB_AS_SPACES}{val_line}".rstrip())
+
     @staticmethod
     def _render_tree(node: Node, depth: int, lines: list[str], parent: Optional[Node] = None) -> None:
         # pylint: disable=too-complex
@@ -664,11 +685,7 @@ class RecipeReader(IsModifiable):
                     lines.append(f"{TAB_AS_SPACES * (depth-1)}- {node.value}:  {node.comment}".rstrip())
                 else:
                     lines.append(f"{spaces}{node.value}:  {node.comment}".rstrip())
-                lines.append(
-                    f"{spaces}{TAB_AS_SPACES}- "
-                    f"{stringify_yaml(node.children[0].value, multiline_variant=node.children[0].multiline_variant)}  "
-                    f"{node.children[0].comment}".rstrip()
-                )
+                RecipeReader._render_list_member(node.children[0], f"{spaces}{TAB_AS_SPACES}", lines)
                 return
 
             key_prefix = f"{TAB_AS_SPACES * (depth-1)}- " if is_first_collection_child else spaces
@@ -732,7 +749,7 @@ class RecipeReader(IsModifiable):
                 lines.append(f"{spaces}{indent}" f"{stringify_yaml(child.value)}:  " f"{child.comment}".rstrip())
             # Leaf nodes are rendered as members in a list
             elif child.is_leaf():
-                lines.append(f"{spaces}{extra_tab}- " f"{stringify_yaml(child.value)}  " f"{child.comment}".rstrip())
+                RecipeReader._render_list_member(child, f"{spaces}{extra_tab}", lines)
             else:
                 RecipeReader._render_tree(child, depth + depth_delta, lines, node)
             is_past_first_key = is_past_first_key or not child.is_comment()
@@ -907,17 +924,19 @@ class RecipeReader(IsModifiable):
 
         return_value: JsonType = None
         # Handle unpacking of the last key-value set of nodes.
-        if node.is_single_key() and not node.is_root():
-            if node.children[0].multiline_variant != MultilineVariant.NONE:
-                multiline_str = cast(
-                    str,
-                    normalize_multiline_strings(
-                        cast(list[str], node.children[0].value), node.children[0].multiline_variant
-                    ),
-                )
-                if sub_vars:
-                    return self._render_jinja_vars(multiline_str)
-                return cast(JsonType, yaml.load(multiline_str, Loader=SafeLoader))
+        is_single_key: Final[bool] = node.is_single_key() and not node.is_root()
+        value_node: Final[Node] = node.children[0] if is_single_key else node
+        if value_node.multiline_variant != MultilineVariant.NONE:
+            multiline_str = cast(
+                str, normalize_multiline_strings(cast(list[str], value_node.value), value_node.multiline_variant)
+            )
+            multiline_value = (
+                self._render_jinja_vars(multiline_str)
+                if sub_vars
+                else cast(JsonType, yaml.load(multiline_str, Loader=SafeLoader))
+            )
+            return [multiline_value] if is_single_key and value_node.list_member_flag else multiline_value
+        if is_single_key:
             return_value = cast(Primitives, node.children[0].value)
             # Strings are parsed below. Quotes dropped by the YAML parser need to be restored.
             if isinstance(return_value, str):
-- 
2.43.0


From d247dd64426c0de2a1ea8f0b21dadcc85e6b0c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:36 +0000
Subject: [PATCH 70/77] fix: multiline strings that start with spaces state
 their indentation

The indentation indicator of a multiline string was dropped, which changes the
string, and values that start with spaces were rendered as broken YAML.
---
 conda_recipe_manager/parser/_types.py        |  5 +++--
 conda_recipe_manager/parser/_utils.py        | 21 +++++++++++++++++--
 conda_recipe_manager/parser/recipe_reader.py | 22 +++++++++-----------
 3 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index f9ce935..d1d1a02 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -219,7 +219,7 @@ class Regex:
     #   https://stackoverflow.com/questions/3790454/how-do-i-break-a-string-in-yaml-over-multiple-lines/21699210
     # The marker is the whole value of a line, i.e. comments and (quoted) strings may contain `: |`.
     MULTILINE: Final[re.Pattern[str]] = re.compile(
-        r"^\s*(?!#)(?:(?:(?!\s#).)*:|-)\s+(\||>)(?:[1-9](?=[+-]?(?:\s|$)))?(\+|\-)?[1-9]?\s*(?:\s#.*)?$"
+        r"^\s*(?!#)(?:(?:(?!\s#).)*:|-)\s+(\||>)(?=[+-]?([1-9])?)[1-9]?(\+|\-)?[1-9]?\s*(?:\s#.*)?$"
     )
     # Strings that YAML does not read as a string, unless they are quoted
     AMBIGUOUS_PLAIN_STRING: Final[re.Pattern[str]] = re.compile(r":(\s|$)|(^|\s)#|[\x00-\x1f\x7f]")
@@ -231,7 +231,8 @@ class Regex:
     )
     # Group where the "variant" string is identified
     MULTILINE_VARIANT_CAPTURE_GROUP_CHAR: Final[int] = 1
-    MULTILINE_VARIANT_CAPTURE_GROUP_SUFFIX: Final[int] = 2
+    MULTILINE_VARIANT_CAPTURE_GROUP_INDENT: Final[int] = 2
+    MULTILINE_VARIANT_CAPTURE_GROUP_SUFFIX: Final[int] = 3
     DETECT_TRAILING_COMMENT: Final[re.Pattern[str]] = re.compile(r"(\s)+(#)")
     # Matches a line up to the end of its quoted value, which may contain a `#` that does not start a comment
     QUOTED_VALUE: Final[re.Pattern[str]] = re.compile(
diff --git a/conda_recipe_manager/parser/_utils.py b/conda_recipe_manager/parser/_utils.py
index a128543..3f0162a 100644
--- a/conda_recipe_manager/parser/_utils.py
+++ b/conda_recipe_manager/parser/_utils.py
@@ -158,8 +158,11 @@ def normalize_indentation(lines: list[str]) -> list[str]:
         out.append(f"{' ' * indent}{Regex.LIST_MARK.sub('- ', text) if is_list else text}")
 
         # The lines of multiline strings keep their indentation, relative to each other.
-        if Regex.MULTILINE.match(line):
+        if multiline := Regex.MULTILINE.match(line):
             base: Optional[int] = None
+            # The indentation may be stated, which allows the first line to start with spaces.
+            if stated := multiline.group(Regex.MULTILINE_VARIANT_CAPTURE_GROUP_INDENT):
+                base = int(levels[-1][0]) + int(stated)
             while idx < len(lines) and (not lines[idx].strip() or num_tab_spaces(lines[idx]) > levels[-1][0]):
                 if lines[idx].strip():
                     found = num_tab_spaces(lines[idx])
@@ -276,6 +279,20 @@ def stringify_yaml(
     return val
 
 
+def multiline_marker(lines: list[str], variant: MultilineVariant) -> str:
+    """
+    Determines how to mark the start of a multiline string. If the string itself starts with spaces, its indentation
+    must be stated.
+
+    :param lines: Lines of the string
+    :param variant: Multiline variant rules to follow
+    :returns: Marker to render
+    """
+    if next((line for line in lines if line.strip()), "").startswith(" "):
+        return f"{variant[:1]}{TAB_SPACE_COUNT}{variant[1:]}"
+    return variant
+
+
 def normalize_multiline_strings(val: NodeValue, variant: MultilineVariant) -> NodeValue:
     """
     Utility function that takes in a Node's value and "normalizes" multiline strings so that they can be accurately
@@ -292,7 +309,7 @@ def normalize_multiline_strings(val: NodeValue, variant: MultilineVariant) -> No
     # Prepend the multiline marker to the string to have PyYaml interpret how the whitespace should be handled. JINJA
     # substitutions in multi-line strings do not break the PyYaml parser.
     multiline_str = f"\n{TAB_AS_SPACES}".join(cast(list[str], val))
-    return f"{variant}\n{TAB_AS_SPACES}{multiline_str}"
+    return f"{multiline_marker(cast(list[str], val), variant)}\n{TAB_AS_SPACES}{multiline_str}"
 
 
 def dedupe_and_preserve_order(l: list[H]) -> list[H]:
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 4eddaf1..26a24bc 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -27,6 +27,7 @@ from conda_recipe_manager.parser._types import (
 )
 from conda_recipe_manager.parser._utils import (
     dedupe_and_preserve_order,
+    multiline_marker,
     normalize_indentation,
     normalize_multiline_strings,
     num_tab_spaces,
@@ -481,7 +482,6 @@ class RecipeReader(IsModifiable):
                 # that `line_idx` will point to the line of the next node, post-processing. Note that blank lines are
                 # valid in multi-line strings, occasionally found in `/about/summary` sections. The string may also be
                 # the last value in the file.
-                multiline_indent: Optional[int] = None
                 # If the key is the first key of a mapping in a list, it is indented past the list's `-` mark.
                 key_node, key_indent = new_node, new_indent
                 if new_node.is_collection_element():
@@ -489,13 +489,8 @@ class RecipeReader(IsModifiable):
                 while line_idx < num_lines and (
                     lines[line_idx].strip() == "" or num_tab_spaces(lines[line_idx]) > key_indent
                 ):
-                    multiline = lines[line_idx]
-                    # The first line sets the indentation of the string. Any further indentation is part of the string.
-                    if multiline_indent is None and multiline.strip():
-                        multiline_indent = num_tab_spaces(multiline)
-                    multiline_node.value.append(
-                        multiline[min(multiline_indent or 0, num_tab_spaces(multiline)) :].rstrip()
-                    )
+                    # Any further indentation is part of the string.
+                    multiline_node.value.append(lines[line_idx][key_indent + TAB_SPACE_COUNT :].rstrip())
                     line_idx += 1
                 # A top-level section is always rendered with a trailing blank line, so it must not also be tracked as a
                 # part of the string.
@@ -653,8 +648,9 @@ class RecipeReader(IsModifiable):
         if node.multiline_variant == MultilineVariant.NONE:
             lines.append(f"{spaces}- {stringify_yaml(node.value)}  {node.comment}".rstrip())
             return
-        lines.append(f"{spaces}- {node.multiline_variant}  {node.comment}".rstrip())
-        for val_line in cast(list[str], node.value):
+        val_lines: Final[list[str]] = cast(list[str], node.value)
+        lines.append(f"{spaces}- {multiline_marker(val_lines, node.multiline_variant)}  {node.comment}".rstrip())
+        for val_line in val_lines:
             lines.append(f"{spaces}{TAB_AS_SPACES}{val_line}".rstrip())
 
     @staticmethod
@@ -696,8 +692,10 @@ class RecipeReader(IsModifiable):
             # By the language spec, # symbols do not indicate comments on multiline strings.
             if node.children[0].multiline_variant != MultilineVariant.NONE:
                 multi_variant: Final[MultilineVariant] = node.children[0].multiline_variant
-                lines.append(f"{key_prefix}{node.value}: {multi_variant}  {node.comment}".rstrip())
-                for val_line in cast(list[str], node.children[0].value):
+                val_lines: Final[list[str]] = cast(list[str], node.children[0].value)
+                marker: Final[str] = multiline_marker(val_lines, multi_variant)
+                lines.append(f"{key_prefix}{node.value}: {marker}  {node.comment}".rstrip())
+                for val_line in val_lines:
                     lines.append(
                         f"{spaces}{TAB_AS_SPACES}"
                         f"{stringify_yaml(val_line, multiline_variant=multi_variant)}".rstrip()
-- 
2.43.0


From 4f97f019cf044c748c7fed639ed0de3aa2d73d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:28 +0000
Subject: [PATCH 71/77] fix: values that contain ': #' are not mistaken for
 empty keys

---
 conda_recipe_manager/parser/_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index d1d1a02..7bf4388 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -210,10 +210,10 @@ class Regex:
     # Matches the mark of a list member and the key of a mapping. Used to determine how deep a line is nested.
     LIST_MARK: Final[re.Pattern[str]] = re.compile(r"^-(?:\s+|$)")
     KEY_MARK: Final[re.Pattern[str]] = re.compile(
-        r"^(?:\"[^\"]*\"|'[^']*'|[^\s\"'#\[](?:(?!\s#).)*?)\s*:(?:\s|$)"
+        r"^(?:\"[^\"]*\"|'[^']*'|[^\s\"'#\[](?:(?!\s#|:\s).)*?)\s*:(?:\s|$)"
     )
     EMPTY_KEY: Final[re.Pattern[str]] = re.compile(
-        r"^(?:\"[^\"]*\"|'[^']*'|[^\s\"'#\[](?:(?!\s#).)*?)\s*:\s*(?:\s#.*)?$"
+        r"^(?:\"[^\"]*\"|'[^']*'|[^\s\"'#\[](?:(?!\s#|:\s).)*?)\s*:\s*(?:\s#.*)?$"
     )
     # Detects the 6 common variants (3 |'s, 3 >'s). See this guide for more info:
     #   https://stackoverflow.com/questions/3790454/how-do-i-break-a-string-in-yaml-over-multiple-lines/21699210
-- 
2.43.0


From 9340fc9a032bd933eec7ab2daa5332c818644377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:57 +0000
Subject: [PATCH 72/77] fix: quoted strings keep characters beyond the BMP and
 unprintable ones

---
 conda_recipe_manager/parser/_types.py |  4 +++-
 conda_recipe_manager/parser/_utils.py | 18 +++++++++++++++---
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index 7bf4388..02a9afc 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -222,7 +222,9 @@ class Regex:
         r"^\s*(?!#)(?:(?:(?!\s#).)*:|-)\s+(\||>)(?=[+-]?([1-9])?)[1-9]?(\+|\-)?[1-9]?\s*(?:\s#.*)?$"
     )
     # Strings that YAML does not read as a string, unless they are quoted
-    AMBIGUOUS_PLAIN_STRING: Final[re.Pattern[str]] = re.compile(r":(\s|$)|(^|\s)#|[\x00-\x1f\x7f]")
+    AMBIGUOUS_PLAIN_STRING: Final[re.Pattern[str]] = re.compile(
+        r":(\s|$)|(^|\s)#|[\x00-\x1f\x7f-\x9f\u2028\u2029\ufeff]"
+    )
     AMBIGUOUS_PLAIN_STRING_ENDS: Final[re.Pattern[str]] = re.compile(r"^[\s|>`]|^\{(?!\{)|\s$|^(\.\.\.|<<|=)$")
     # Strings that YAML reads as a boolean, null or a date, unless they are quoted
     AMBIGUOUS_PLAIN_STRING_TYPE: Final[re.Pattern[str]] = re.compile(
diff --git a/conda_recipe_manager/parser/_utils.py b/conda_recipe_manager/parser/_utils.py
index 3f0162a..a690d14 100644
--- a/conda_recipe_manager/parser/_utils.py
+++ b/conda_recipe_manager/parser/_utils.py
@@ -192,6 +192,19 @@ def substitute_markers(s: str, subs: list[str]) -> str:
     return s
 
 
+def _quote(s: str) -> str:
+    """
+    Quotes a string. The PyYaml equivalent function injects newlines, hence why we abuse the JSON library to write our
+    YAML. Only the characters that YAML can not read as they are need to be escaped.
+
+    :param s: String to quote
+    :returns: Quoted string
+    """
+    return re.sub(
+        r"[\x7f-\x9f\u2028\u2029\ufeff]", lambda m: f"\\u{ord(m.group()):04x}", json.dumps(s, ensure_ascii=False)
+    )
+
+
 def quote_special_strings(s: str, multiline_variant: MultilineVariant = MultilineVariant.NONE) -> str:
     """
     Ensure string quote escaping if quote marks are present. Otherwise this has the unintended consequence of
@@ -229,8 +242,7 @@ def quote_special_strings(s: str, multiline_variant: MultilineVariant = Multilin
 
     # `*` is common enough that we query the set before checking every "startswith" option as a small optimization.
     if s in _TO_QUOTE_SPECIAL_CHARS or ("${{" not in s and ("'" in s or '"' in s)) or _startswith_check_all():
-        # The PyYaml equivalent function injects newlines, hence why we abuse the JSON library to write our YAML
-        return json.dumps(s)
+        return _quote(s)
     return s
 
 
@@ -274,7 +286,7 @@ def stringify_yaml(
                 or Regex.AMBIGUOUS_PLAIN_STRING_TYPE.search(val)
             )
         ):
-            return json.dumps(val, ensure_ascii=False)
+            return _quote(val)
         return quoted
     return val
 
-- 
2.43.0


From 06f7caac116b1728c3c444665335e47c3795cf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:57 +0000
Subject: [PATCH 73/77] fix: strings with special first characters stay quoted,
 also with Jinja expressions

---
 conda_recipe_manager/parser/_types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index 02a9afc..29405ef 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -225,7 +225,9 @@ class Regex:
     AMBIGUOUS_PLAIN_STRING: Final[re.Pattern[str]] = re.compile(
         r":(\s|$)|(^|\s)#|[\x00-\x1f\x7f-\x9f\u2028\u2029\ufeff]"
     )
-    AMBIGUOUS_PLAIN_STRING_ENDS: Final[re.Pattern[str]] = re.compile(r"^[\s|>`]|^\{(?!\{)|\s$|^(\.\.\.|<<|=)$")
+    AMBIGUOUS_PLAIN_STRING_ENDS: Final[re.Pattern[str]] = re.compile(
+        r"^[\s|>`\[\],}&*!%@\"']|^[-?:](?=\s|$)|^\{(?!\{[^{].*\}\})|\s$|^\.\.\.(\s|$)|^(<<|=)$"
+    )
     # Strings that YAML reads as a boolean, null or a date, unless they are quoted
     AMBIGUOUS_PLAIN_STRING_TYPE: Final[re.Pattern[str]] = re.compile(
         r"^(~|null|Null|NULL|[Tt]rue|TRUE|[Ff]alse|FALSE|[Yy]es|YES|[Nn]o|NO|[Oo]n|ON|[Oo]ff|OFF"
-- 
2.43.0


From fafc72b85d1814fcd88f6c3480e06760272cee09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:56 +0000
Subject: [PATCH 74/77] fix: a boolean build number is not an integer

---
 conda_recipe_manager/commands/bump_recipe.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/commands/bump_recipe.py b/conda_recipe_manager/commands/bump_recipe.py
index fbb6a09..ade0638 100644
--- a/conda_recipe_manager/commands/bump_recipe.py
+++ b/conda_recipe_manager/commands/bump_recipe.py
@@ -140,7 +140,8 @@ def _update_build_num(recipe_parser: RecipeParser, increment_build_num: bool) ->
     if increment_build_num and recipe_parser.contains_value(RecipePaths.BUILD_NUM):
         build_number = recipe_parser.get_value(RecipePaths.BUILD_NUM)
 
-        if not isinstance(build_number, int):
+        # NOTE: Booleans are integers in Python.
+        if not isinstance(build_number, int) or isinstance(build_number, bool):
             log.error("Build number is not an integer.")
             sys.exit(ExitCode.ILLEGAL_OPERATION)
 
-- 
2.43.0


From b2b6104750befa8c1c71398d1e8716182e37babd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:59 +0000
Subject: [PATCH 75/77] fix: the letters of an empty section's name are not its
 dependencies

---
 conda_recipe_manager/parser/recipe_parser_deps.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser_deps.py b/conda_recipe_manager/parser/recipe_parser_deps.py
index 5cdc8a0..ecb22a7 100644
--- a/conda_recipe_manager/parser/recipe_parser_deps.py
+++ b/conda_recipe_manager/parser/recipe_parser_deps.py
@@ -169,8 +169,10 @@ class RecipeParserDeps(RecipeParser, RecipeReaderDeps):
         patch_path = RecipeParserDeps._init_patch_path(dep, dep_mode, base_path, is_new_section)
 
         # TODO: Add a "get dependencies at path" function to `RecipeReaderDeps`
-        cur_deps: Final[list[Optional[str]]] = cast(
-            list[Optional[str]], self.get_value(base_path, sub_vars=True, default=[])
+        cur_section: Final[JsonType] = self.get_value(base_path, sub_vars=True, default=[])
+        # NOTE: The value of an empty section is not a list, so there are no duplicates to be found in it.
+        cur_deps: Final[list[Optional[str]]] = (
+            cast(list[Optional[str]], cur_section) if isinstance(cur_section, list) else []
         )
 
         # Check for duplicate dependencies, if applicable.
-- 
2.43.0


From 7272897493ea6e5bc28b6fcdeca74ab0cd520153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:53 +0000
Subject: [PATCH 76/77] fix: the value / is not the root of the recipe

---
 conda_recipe_manager/parser/recipe_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 56edc26..6b4a444 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -302,7 +302,7 @@ class RecipeParser(RecipeReader):
         :param is_list: True if the new member is a list member. False if the new member is a key.
         :returns: True if the node can contain the new member. False otherwise.
         """
-        if node.is_leaf() and not node.key_flag and not node.is_root():
+        if node.is_leaf() and not node.key_flag and (node.list_member_flag or not node.is_root()):
             return False
         return all(
             child.list_member_flag if is_list else child.key_flag and not child.list_member_flag
-- 
2.43.0


From b23387a9f1525ba915898915d4a9b1ee6f28941d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:58 +0000
Subject: [PATCH 77/77] fix: an empty key that is moved or copied stays empty

---
 conda_recipe_manager/parser/recipe_parser.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 6b4a444..bca48df 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -480,6 +480,19 @@ class RecipeParser(RecipeReader):
         RecipeParser._replace_children(node, new_children)
         return True
 
+    def _get_from_value(self, value_from: str) -> JsonType:
+        """
+        Retrieves the value that a JSON patch `move` or `copy` operation starts from.
+
+        :param value_from: The "from" value in the JSON payload, i.e. the path the value originates from.
+        :raises KeyError: If there is no value at that path.
+        :returns: The value at the provided path. Keys that have no value are `null`.
+        """
+        node: Final[Optional[Node]] = traverse(self._root, str_to_stack_path(value_from))
+        if node is not None and node.is_empty_key():
+            return None
+        return self.get_value(value_from)
+
     def _patch_move(self, path_stack: StrStack, value_from: str) -> bool:
         """
         Performs a JSON patch `add` operation.
@@ -494,7 +507,7 @@ class RecipeParser(RecipeReader):
         # So to save on development and maintenance, that is how this op is written.
         original_value: JsonType
         try:
-            original_value = self.get_value(value_from)
+            original_value = self._get_from_value(value_from)
         except KeyError:
             return False
 
@@ -531,7 +544,7 @@ class RecipeParser(RecipeReader):
         # So to save on development and maintenance, that is how this op is written.
         original_value: JsonType
         try:
-            original_value = self.get_value(value_from)
+            original_value = self._get_from_value(value_from)
         except KeyError:
             return False
 
-- 
2.43.0

