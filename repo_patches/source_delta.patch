From f91b64c8f1ae03c38412dbf2a839a81e399121f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:19 +0000
Subject: [PATCH 01/78] fix: MemoryFallback forgets the running child once it
 has a result

The memory was only cleared at the next tick if the node was still in state
SUCCEEDED or FAILED; an untick in between made the next run start in the middle.
---
 ros_bt_py/ros_bt_py/nodes/fallback.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/nodes/fallback.py b/ros_bt_py/ros_bt_py/nodes/fallback.py
index 9366cff..f504448 100644
--- a/ros_bt_py/ros_bt_py/nodes/fallback.py
+++ b/ros_bt_py/ros_bt_py/nodes/fallback.py
@@ -287,6 +287,7 @@ class MemoryFallback(FlowControl):
                 if state == BTNodeState.RUNNING:
                     self.last_running_child = index
                 elif state == BTNodeState.SUCCEEDED:
+                    self.last_running_child = 0
                     # untick all children after the one that triggered this
                     # condition
                     for untick_child in self.children[index + 1 :]:
@@ -297,6 +298,7 @@ class MemoryFallback(FlowControl):
                                 pass
                 return Ok(state)
         # If all children failed, we too fail
+        self.last_running_child = 0
         return Ok(BTNodeState.FAILED)
 
     def _do_untick(self) -> Result[BTNodeState, BehaviorTreeException]:
-- 
2.43.0


From 7da479a6054c884799ca4f09ced64941ff52c85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:41 +0000
Subject: [PATCH 02/78] fix: assigning the same value again keeps a pending
 update flag

set_value() overwrote the flag with 'has it changed just now', so an update
that was flagged by reset() or by an earlier assignment was lost when the same
value arrived again before the node was ticked.
---
 ros_bt_py/ros_bt_py/data_types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 5b6e54a..9743a87 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -263,8 +263,10 @@ class DataContainer(Generic[ANY], abc.ABC):
         #   returing an iterable of bools rather than a single bool
         if isinstance(has_changed, Iterable):
             has_changed = any(has_changed)
-        self._updated = has_changed
+        # An update that has not been consumed yet is kept, even if the value
+        #   is assigned again.
         if has_changed:
+            self._updated = True
             self._value = deepcopy(value)
         return Ok(None)
 
-- 
2.43.0


From 43c85b459542cef748a0b4ea72c18084b338dc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:16 +0000
Subject: [PATCH 03/78] fix: dictionaries of anything but strings can be
 serialized

The checked return annotation of the dict type only allowed string items.
---
 ros_bt_py/ros_bt_py/data_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 9743a87..d810e2a 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -901,8 +901,8 @@ class DictType(IterableContainer[dict[str, Any]]):
         return super().set_value(cleaned_keys)
 
     @typechecked
-    def _serialize_value(self, value: dict[str, Any]) -> dict[str, str]:
-        serialized_dict: dict[str, str] = {}
+    def _serialize_value(self, value: dict[str, Any]) -> dict[str, Any]:
+        serialized_dict: dict[str, Any] = {}
         for key, item in value.items():
             serialized_dict[key] = self._element_type._serialize_value(item)
         return serialized_dict
-- 
2.43.0


From 4be49ee4ad625dd68efca46f65e28a5f1dac5eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 04/78] fix: the description of nested iterable types lists
 levels outside in

Reading takes the first entry for the outermost level, writing appended it last.
---
 ros_bt_py/ros_bt_py/data_types.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index d810e2a..6666e57 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -817,10 +817,11 @@ class IterableContainer(BuiltinContainer[ITER]):
         inner_type_msg.allow_dynamic = type_msg.allow_dynamic
         inner_type_msg.allow_static = type_msg.allow_static
         inner_type_msg.is_static = type_msg.is_static
-        inner_type_msg.value_type_identifier.append(inner_type_msg.type_identifier)
+        # Nested iterables are listed from the outside in
+        inner_type_msg.value_type_identifier.insert(0, inner_type_msg.type_identifier)
         inner_type_msg.type_identifier = type_msg.type_identifier
-        inner_type_msg.iterable_max_length.append(self.max_length)
-        inner_type_msg.iterable_strict_length.append(self.strict_length)  # type: ignore
+        inner_type_msg.iterable_max_length.insert(0, self.max_length)
+        inner_type_msg.iterable_strict_length.insert(0, self.strict_length)  # type: ignore
         return inner_type_msg
 
     @abc.abstractmethod
-- 
2.43.0


From de2076d33a87ef6eb0acce2c705ae8a1d317635b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:15 +0000
Subject: [PATCH 05/78] fix: array fields of ROS messages can be stored and
 serialized

rosidl hands out array.array and numpy.ndarray for numeric sequences; writing
them raised a type error, and fixed size arrays could not even be assigned.
---
 ros_bt_py/ros_bt_py/data_types.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 6666e57..47b806b 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -27,7 +27,6 @@
 # POSSIBILITY OF SUCH DAMAGE.
 
 import abc
-import array
 import builtins
 from copy import deepcopy
 import json
@@ -849,9 +848,12 @@ class ListType(IterableContainer[list[Any]]):
     _value = []
 
     @typechecked
-    def set_value(self, value: list | array.array) -> Result[None, str]:
-        if isinstance(value, array.array):
-            value = list(value)
+    def set_value(self, value: Any) -> Result[None, str]:
+        # Numeric sequences in ROS messages are held as python or numpy arrays
+        if hasattr(value, "tolist"):
+            value = value.tolist()
+        if not isinstance(value, list):
+            return Err(f"Given value {value} isn't of type {self._type}")
         for item in value:
             match self._element_type.set_value(item):
                 case Err(e):
@@ -861,7 +863,10 @@ class ListType(IterableContainer[list[Any]]):
         return super().set_value(value)
 
     @typechecked
-    def _serialize_value(self, value: list[Any]) -> list[Any]:
+    def _serialize_value(self, value: Any) -> list[Any]:
+        # Numeric sequences in ROS messages are held as python or numpy arrays
+        if hasattr(value, "tolist"):
+            value = value.tolist()
         serialized_list = []
         for item in value:
             serialized_list.append(self._element_type._serialize_value(item))
-- 
2.43.0


From a827e98e674c9da77b98c532daf4e5ac1fc5b8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:46 +0000
Subject: [PATCH 06/78] fix: static/dynamic attributes of element types are
 ignored in comparisons

A list that only allows dynamic values was not compatible with its own
description read back, so nodes with such an input could not be loaded.
---
 ros_bt_py/ros_bt_py/data_types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 47b806b..eb2cc27 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -755,8 +755,10 @@ class IterableContainer(BuiltinContainer[ITER]):
         if element_type is not None:
             self._element_type = element_type
 
-        # Force element_type to accept dynamic values
+        # Force element_type to accept dynamic values, and to not be constrained
+        #   by static/dynamic attributes that don't apply to it
         self._element_type.allow_dynamic = True
+        self._element_type.allow_static = True
         self._element_type.is_static = False
 
         if max_length is not None:
-- 
2.43.0


From be3a6412f71ca47da472b0e6c0113e71cc5e372c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:57 +0000
Subject: [PATCH 07/78] fix: a string type fits if its options are among the
 allowed ones

The comparison went the other way round: wider sets of options were accepted
and narrower ones refused.
---
 ros_bt_py/ros_bt_py/data_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index eb2cc27..68fd67f 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -652,8 +652,8 @@ class StringContainer(BuiltinContainer[STRING]):
         if self.valid_values is not None:
             if other.valid_values is None:
                 return False
-            for val in self.valid_values:
-                if val not in other.valid_values:
+            for val in other.valid_values:
+                if val not in self.valid_values:
                     return False
         return True
 
-- 
2.43.0


From 451def793b45b21b504cee4d2706fceb8b1a4b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 08/78] fix: add_node reports the id of the new node

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 35b67db..0e679df 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -121,6 +121,7 @@ class TreeEditManager(TreeExecManager):
         )
 
         response.success = internal_response.success
+        response.node_id = internal_response.node_id
         response.error_message = internal_response.error_message
         return response
 
-- 
2.43.0


From 4e7155eab0373db2c67d76f9fd038b6de1fd3469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 09/78] fix: a node that cannot be attached to its parent is
 not left in the tree

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 0e679df..1ad4809 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -139,6 +139,14 @@ class TreeEditManager(TreeExecManager):
         :param ros_bt_py_msgs.srv.AddNodeAtIndexRequest request:
             A request describing the node to add.
         """
+        match ros_to_uuid(request.parent_node_id):
+            case Err(e):
+                response.success = False
+                response.error_message = e
+                return response
+            case Ok(p_id):
+                parent_node_id = p_id
+
         node_msg = request.node
         node_msg.node_id = uuid_to_ros(uuid.uuid4())
         match self.instantiate_node_from_msg(
@@ -155,14 +163,6 @@ class TreeEditManager(TreeExecManager):
         response.success = True
         response.node_id = node_msg.node_id
 
-        match ros_to_uuid(request.parent_node_id):
-            case Err(e):
-                response.success = False
-                response.error_message = e
-                return response
-            case Ok(p_id):
-                parent_node_id = p_id
-
         # Add node as child of the named parent, if any
         if parent_node_id != uuid.UUID(int=0):
             if parent_node_id not in self.nodes:
@@ -186,6 +186,14 @@ class TreeEditManager(TreeExecManager):
                 case Err(e):
                     response.success = False
                     response.error_message = str(e)
+                    # Remove node from tree
+                    self.remove_node(
+                        request=RemoveNode.Request(
+                            node_id=uuid_to_ros(instance.node_id),
+                            remove_children=False,
+                        ),
+                        response=RemoveNode.Response(),
+                    )
                     return response
                 case Ok(_):
                     pass
-- 
2.43.0


From a5e3a0699bf5de1b52118b774a88980ef34be232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 10/78] fix: add_node attaches the existing children named in
 the request

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 32 ++++++++++++++----------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 1ad4809..1d3afbd 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -200,16 +200,22 @@ class TreeEditManager(TreeExecManager):
 
         # Add children from msg to node
         missing_children = []
-        for child_id in request.node.child_ids:
-            if child_id in self.nodes:
-                match instance.add_child(self.nodes[child_id]):
-                    case Err(e):
-                        self.get_logger().warn(f"Could not add child: {str(e)}")
-                        missing_children.append(child_id)
-                    case Ok(_):
-                        pass
-            else:
-                missing_children.append(child_id)
+        for ros_child_id in request.node.child_ids:
+            child = (
+                ros_to_uuid(ros_child_id)
+                .map(lambda c_id: self.nodes.get(c_id))
+                .unwrap_or(None)
+            )
+            # A node that already has a parent can't get a second one
+            if child is None or child.parent is not None:
+                missing_children.append(ros_child_id)
+                continue
+            match instance.add_child(child):
+                case Err(e):
+                    self.get_logger().warn(f"Could not add child: {str(e)}")
+                    missing_children.append(ros_child_id)
+                case Ok(_):
+                    pass
         if missing_children:
             response.success = False
             response.error_message = (
@@ -223,6 +229,7 @@ class TreeEditManager(TreeExecManager):
                 ),
                 response=RemoveNode.Response(),
             )
+            return response
 
         nodes_in_cycles = self.find_nodes_in_cycles()
         if nodes_in_cycles:
@@ -255,9 +262,8 @@ class TreeEditManager(TreeExecManager):
             self._children[parent_node_id].append(instance.node_id)
         if instance.node_id not in self._children:
             self._children[instance.node_id] = []
-        for child_id in request.node.child_ids:
-            if child_id in self.nodes:
-                self._children[instance.node_id].append(child_id)
+        for child in instance.children:
+            self._children[instance.node_id].append(child.node_id)
 
         return response
 
-- 
2.43.0


From 07ba58fa55073966a8a1e2ebbef2ed25052a6495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 11/78] fix: morph_node refuses a type that can't hold the
 node's children

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 1d3afbd..53d566c 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -399,6 +399,20 @@ class TreeEditManager(TreeExecManager):
             case Ok(n):
                 new_node = n
 
+        # The new instance only takes its place in the tree if it fits
+        self.nodes[node_id] = old_node
+        if (
+            new_node.node_config.max_children is not None
+            and len(old_node.children) > new_node.node_config.max_children
+        ):
+            response.success = False
+            response.error_message = (
+                f"Cannot morph node {old_node.name}: It has "
+                f"{len(old_node.children)} children, {new_node.name} "
+                f"supports {new_node.node_config.max_children}."
+            )
+            return response
+
         # First unwire all data connection to the existing node
         wire_request = WireNodeData.Request(
             wirings=[
-- 
2.43.0


From c007fa08e5698153cc617908982064a6fb768cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 12/78] fix: move_node refuses to make a node its own child

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 53d566c..1ec8238 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -748,7 +748,7 @@ class TreeEditManager(TreeExecManager):
                 continue
             descendants.add(descendant_id)
             pending.extend(self._children.get(descendant_id, []))
-        if new_parent.node_id in descendants:
+        if new_parent.node_id == node_id or new_parent.node_id in descendants:
             response.success = False
             response.error_message = (
                 f"Cannot move node {node.name} to new parent node {new_parent.name}. "
-- 
2.43.0


From 194de9dff5eeec2a1b0647353a03489be1da17cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:11 +0000
Subject: [PATCH 13/78] fix: replace_node keeps the tree free of cycles and
 leaves it unchanged on errors

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 48 ++++++++++++++++++++++--
 1 file changed, 45 insertions(+), 3 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 1ec8238..7a1104c 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -827,16 +827,45 @@ class TreeEditManager(TreeExecManager):
         old_node = self.nodes[old_node_id]
         new_node = self.nodes[new_node_id]
 
+        if new_node is old_node:
+            response.success = False
+            response.error_message = f"Cannot replace node {old_node.name} by itself."
+            return response
+
+        self._sync_children()
+        descendants = {}
+        for ancestor_id in (old_node_id, new_node_id):
+            descendants[ancestor_id] = set()
+            pending = list(self._children.get(ancestor_id, []))
+            while pending:
+                descendant_id = pending.pop()
+                if descendant_id in descendants[ancestor_id]:
+                    continue
+                descendants[ancestor_id].add(descendant_id)
+                pending.extend(self._children.get(descendant_id, []))
+
+        if old_node_id in descendants[new_node_id]:
+            response.success = False
+            response.error_message = (
+                f"Cannot replace node {old_node.name} by {new_node.name}. "
+                f"{old_node.name} is a child of {new_node.name}!"
+            )
+            return response
+
+        required_children = len(new_node.children) + len(
+            [child for child in old_node.children if child.node_id != new_node_id]
+        )
         if (
             new_node.node_config.max_children is not None
-            and len(old_node.children) > new_node.node_config.max_children
+            and required_children > new_node.node_config.max_children
         ):
             response.success = False
             response.error_message = (
                 f'Replacement node ("{new_node.name}") does not support the number of'
                 f"children required ({old_node.name} has "
-                f"{len(old_node.children)} children, "
-                f"{new_node.name} supports {new_node.node_config.max_children}."
+                f"{len(old_node.children)} children, {new_node.name} has "
+                f"{len(new_node.children)} and supports "
+                f"{new_node.node_config.max_children})."
             )
             return response
 
@@ -888,6 +917,19 @@ class TreeEditManager(TreeExecManager):
                         old_node_child_index -= 1
                     break
 
+        # A node from below the old one leaves its place there, otherwise it
+        # would end up below its own children
+        if new_node_id in descendants[old_node_id] and new_node.parent is not None:
+            match new_node.parent.remove_child(new_node_id):
+                case Err(e):
+                    response.success = False
+                    response.error_message = (
+                        f"Could not remove child node {new_node_id}: {str(e)}"
+                    )
+                    return response
+                case Ok(_):
+                    pass
+
         # Move the children from old to new
         for child_id in [child.node_id for child in old_node.children]:
             match old_node.remove_child(child_id):
-- 
2.43.0


From 31de0122784fb94434be2b94d74547c3fd6a5642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:57 +0000
Subject: [PATCH 14/78] fix: malformed serialized values are reported instead
 of raised

---
 ros_bt_py/ros_bt_py/data_types.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 68fd67f..348e73d 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -348,8 +348,14 @@ class DataContainer(Generic[ANY], abc.ABC):
         then to the :obj:`self._deserialize_value` helper function,
         and finally to :obj:`self.set_value`.
         """
-        value = json.loads(ser_value)
-        return self._deserialize_value(value).and_then(lambda val: self.set_value(val))
+        # Serialized values come from files and service calls, anything may be in there
+        try:
+            value = json.loads(ser_value)
+            return self._deserialize_value(value).and_then(
+                lambda val: self.set_value(val)
+            )
+        except Exception as ex:
+            return Err(f"Can't deserialize value {ser_value}: {ex}")
 
     @typechecked
     def _deserialize_value(self, value: Any) -> Result[ANY, str]:
-- 
2.43.0


From 6d859a6c27f4afe25576e7d3bc222fd0d979a4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:57 +0000
Subject: [PATCH 15/78] fix: from_msg reports any error in a node's constructor

---
 ros_bt_py/ros_bt_py/node.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/node.py b/ros_bt_py/ros_bt_py/node.py
index 04179e1..55b3630 100644
--- a/ros_bt_py/ros_bt_py/node.py
+++ b/ros_bt_py/ros_bt_py/node.py
@@ -1064,6 +1064,8 @@ class Node(abc.ABC):
             )
         except BehaviorTreeException as ex:
             return Err(ex)
+        except Exception as ex:
+            return Err(BehaviorTreeException(f"Failed to construct node: {ex}"))
 
         return Ok(node_instance)
 
-- 
2.43.0


From 7bfb087d316754ec2407db965d2e6429f965c73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:07 +0000
Subject: [PATCH 16/78] fix: reloading a tree keeps its nodes and wirings

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 609a4fb..3031759 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -26,6 +26,7 @@
 # ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
 # POSSIBILITY OF SUCH DAMAGE.
 
+from copy import deepcopy
 from importlib import metadata
 import os
 import uuid
@@ -787,7 +788,8 @@ class TreeExecManager:
         """Reload the currently loaded tree."""
         load_response = LoadTree.Response()
         load_response = self.load_tree(
-            request=LoadTree.Request(tree=self.structure_to_msg()),
+            # Loading clears the current tree first, including its message
+            request=LoadTree.Request(tree=deepcopy(self.structure_to_msg())),
             response=load_response,
         )
 
-- 
2.43.0


From a198bef7407ebd4c05434ba55c06906c80802601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:07 +0000
Subject: [PATCH 17/78] fix: the structure message keeps the public inputs and
 outputs of a loaded tree

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 3031759..77298e1 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -1443,8 +1443,6 @@ class TreeExecManager:
                 else:
                     subtree = get_subtree_msg_result.unwrap()[0]
                     self._tree_structure.nodes = subtree.nodes
-                    self._tree_structure.public_inputs = subtree.public_inputs
-                    self._tree_structure.public_outputs = subtree.public_outputs
             else:
                 self._tree_structure.nodes = []
         else:
-- 
2.43.0


From 97c86cbfa0d14adc7ea89fd370315993b5a0b37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 18/78] fix: get_subtree includes the wirings of the subtree

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 7a1104c..c3caa2e 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -1079,6 +1079,23 @@ class TreeEditManager(TreeExecManager):
                 return response
             case Ok((s, _, _)):
                 response.subtree = s
+        # The nodes don't know about their wirings, only the tree does
+        inner_ids = {node.node_id for node in response.subtree.nodes}
+        data_wirings = []
+        public_inputs = []
+        public_outputs = []
+        for wiring in self.wirings:
+            if wiring.source.node_id in inner_ids:
+                if wiring.target.node_id in inner_ids:
+                    data_wirings.append(wiring)
+                elif wiring.source not in public_outputs:
+                    public_outputs.append(wiring.source)
+            elif wiring.target.node_id in inner_ids:
+                if wiring.target not in public_inputs:
+                    public_inputs.append(wiring.target)
+        response.subtree.data_wirings = data_wirings
+        response.subtree.public_inputs = public_inputs
+        response.subtree.public_outputs = public_outputs
         response.success = True
         return response
 
-- 
2.43.0


From 6284411b46fee16154ad1aea6c5ead68a2cf3c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 19/78] fix: load_tree reports a child that is not part of the
 tree

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 77298e1..68c60ba 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -876,6 +876,12 @@ class TreeExecManager:
                         return response
                     case Ok(u):
                         child_id = u
+                if child_id not in self.nodes:
+                    response.success = False
+                    response.error_message = (
+                        f"Child {child_id} of node {node.name} is not in the tree"
+                    )
+                    return response
                 match self.nodes[node_id].add_child(self.nodes[child_id]):
                     case Err(e):
                         response.success = False
-- 
2.43.0


From e9432278401c46d9e715a730f6bc0dbe41dd3569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:07 +0000
Subject: [PATCH 20/78] fix: tree files that can't be read are reported instead
 of raised or read forever

---
 ros_bt_py/ros_bt_py/migrate_tree_files.py |  7 ++-
 ros_bt_py/ros_bt_py/tree_exec_manager.py  | 52 +++++++++++++++++------
 2 files changed, 43 insertions(+), 16 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/migrate_tree_files.py b/ros_bt_py/ros_bt_py/migrate_tree_files.py
index 2fb38bb..e2027fb 100644
--- a/ros_bt_py/ros_bt_py/migrate_tree_files.py
+++ b/ros_bt_py/ros_bt_py/migrate_tree_files.py
@@ -30,12 +30,15 @@ import os
 import sys
 import yaml
 from importlib import metadata
-from packaging.version import Version
+from packaging.version import InvalidVersion, Version
 from ros_bt_py.vendor.result import Result, Ok, Err
 
 
 def migrate_legacy_tree_structure(tree_dict: dict) -> Result[dict, str]:
-    tree_version = Version(tree_dict.get("version", "0.0.0"))
+    try:
+        tree_version = Version(str(tree_dict.get("version", "0.0.0")))
+    except InvalidVersion as ex:
+        return Err(str(ex))
 
     if tree_version < Version("1.0.0"):
         return Err("Migrations from 0.x versions are not supported")
diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 68c60ba..4d884d9 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -31,7 +31,7 @@ from importlib import metadata
 import os
 import uuid
 from functools import wraps
-from packaging.version import Version
+from packaging.version import InvalidVersion, Version
 from threading import Thread, Lock, RLock
 from typing import Any, Callable, Dict, Optional, List, cast
 
@@ -43,7 +43,6 @@ import rclpy.node
 from rclpy.duration import Duration
 
 import yaml
-import yaml.scanner
 from typeguard import typechecked
 
 
@@ -134,10 +133,18 @@ def parse_tree_yaml(tree_yaml: str) -> MigrateTree.Response:
     for datum in data:
         if datum is None:
             continue
+        if not isinstance(datum, dict):
+            response.success = False
+            response.error_message = "Tree YAML file must contain a mapping!"
+            return response
         if not read_data:
-            if Version(datum.get("version", "0.0.0")) < Version(
-                metadata.version("ros_bt_py")
-            ):
+            try:
+                tree_version = Version(str(datum.get("version", "0.0.0")))
+            except InvalidVersion as ex:
+                response.success = False
+                response.error_message = f"Invalid version of tree file: {ex}"
+                return response
+            if tree_version < Version(metadata.version("ros_bt_py")):
                 match migrate_legacy_tree_structure(datum):
                     case Err(e):
                         response.success = False
@@ -147,8 +154,13 @@ def parse_tree_yaml(tree_yaml: str) -> MigrateTree.Response:
                         return response
                     case Ok(d):
                         datum = d
-            datum.pop("version")
-            rosidl_runtime_py.set_message_fields(response.tree, datum)
+            datum.pop("version", None)
+            try:
+                rosidl_runtime_py.set_message_fields(response.tree, datum)
+            except Exception as ex:
+                response.success = False
+                response.error_message = f"Tree file does not describe a tree: {ex}"
+                return response
             read_data = True
         else:
             response.success = False
@@ -187,9 +199,14 @@ def load_tree_from_file(
 
         elif tree.path.startswith("package://"):
             package_name = tree.path[len("package://") :].split("/", 1)[0]
-            package_path = ament_index_python.get_package_share_directory(
-                package_name=package_name
-            )
+            try:
+                package_path = ament_index_python.get_package_share_directory(
+                    package_name=package_name
+                )
+            except (KeyError, ValueError) as ex:
+                response.success = False
+                response.error_message = f"Can't find package {package_name}: {ex}"
+                return response
             file_path = (
                 package_path + tree.path[len("package://") + len(package_name) :]
             )
@@ -205,23 +222,30 @@ def load_tree_from_file(
         # load tree file and parse yaml, then convert to Tree message
         try:
             tree_file = open(file_path, "r")
-        except IOError as ex:
+        except (IOError, ValueError) as ex:
             response.success = False
             response.error_message = f"Error opening file {file_path}: {str(ex)}"
             return response
 
         with tree_file:
-            tree_yaml = tree_file.read()
             try:
+                tree_yaml = tree_file.read()
                 response = parse_tree_yaml(tree_yaml=tree_yaml)
-            except yaml.scanner.ScannerError as ex:
+            except (yaml.YAMLError, ValueError, TypeError, RecursionError) as ex:
                 response.success = False
                 response.error_message = (
-                    f"Encountered a ScannerError while parsing the tree yaml: {str(ex)}"
+                    f"Encountered an error while parsing the tree yaml: {str(ex)}"
                 )
                 return response
+            if not response.success:
+                return response
             tree = response.tree
             tree.path = request.tree.path
+            if not tree.nodes:
+                # Reading the same file again won't change that
+                response.success = False
+                response.error_message = f"No nodes in tree file {file_path}"
+                return response
 
     response.success = True
     response.tree = tree
-- 
2.43.0


From 8e71efecc5600eeafdd63d078a1d0621863dbfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:18 +0000
Subject: [PATCH 21/78] fix: looking for cycles ends if a node only leads into
 one

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index c3caa2e..fa91a12 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -80,6 +80,9 @@ class TreeEditManager(TreeExecManager):
                     # Editable trees can contain stale runtime references.
                     safe_node_ids.extend(cycle_candidates)
                     break
+                if parent_id != starting_id and parent_id in cycle_candidates:
+                    # Leads into a cycle that the starting node isn't part of
+                    break
                 current_node = self.nodes[parent_id]
                 cycle_candidates.append(current_node.node_id)
                 if current_node.node_id == starting_id:
-- 
2.43.0


From 8a4fdbb938e5f26113ca166e0fbc6178eef0b53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:28 +0000
Subject: [PATCH 22/78] fix: a module that can't be imported is reported
 instead of raised

---
 ros_bt_py/ros_bt_py/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/node.py b/ros_bt_py/ros_bt_py/node.py
index 55b3630..8f9168a 100644
--- a/ros_bt_py/ros_bt_py/node.py
+++ b/ros_bt_py/ros_bt_py/node.py
@@ -1290,7 +1290,7 @@ def load_node_module(package_name: str) -> Optional[ModuleType]:
     """
     try:
         return importlib.import_module(package_name)
-    except (ImportError, ValueError) as exc:
+    except Exception as exc:  # anything can happen in the imported module
         rclpy.logging.get_logger(package_name).error(
             f'Could not load node module "{package_name}": {repr(exc)}',
             throttle_duration_sec=30,
-- 
2.43.0


From d5270d13faa6671c3163831eeb77df41bfd84d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:46 +0000
Subject: [PATCH 23/78] fix: load_tree refuses nodes with several parents

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 4d884d9..41244b2 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -906,6 +906,12 @@ class TreeExecManager:
                         f"Child {child_id} of node {node.name} is not in the tree"
                     )
                     return response
+                if self.nodes[child_id].parent is not None:
+                    response.success = False
+                    response.error_message = (
+                        f"Child {child_id} of node {node.name} has another parent"
+                    )
+                    return response
                 match self.nodes[node_id].add_child(self.nodes[child_id]):
                     case Err(e):
                         response.success = False
-- 
2.43.0


From d3905f30570ca6b984b1b58bfb543d50344f3632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:29 +0000
Subject: [PATCH 24/78] fix: an empty module name is reported instead of raised

---
 ros_bt_py/ros_bt_py/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/node.py b/ros_bt_py/ros_bt_py/node.py
index 8f9168a..7b58e05 100644
--- a/ros_bt_py/ros_bt_py/node.py
+++ b/ros_bt_py/ros_bt_py/node.py
@@ -1291,7 +1291,8 @@ def load_node_module(package_name: str) -> Optional[ModuleType]:
     try:
         return importlib.import_module(package_name)
     except Exception as exc:  # anything can happen in the imported module
-        rclpy.logging.get_logger(package_name).error(
+        # The package name may be anything, including things that can't name a logger
+        rclpy.logging.get_logger(__name__).error(
             f'Could not load node module "{package_name}": {repr(exc)}',
             throttle_duration_sec=30,
         )
-- 
2.43.0


From e56dd034ea479242c276785ebf6785a508e090b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:28 +0000
Subject: [PATCH 25/78] fix: shut down the children of a node that fails to
 shut down

---
 ros_bt_py/ros_bt_py/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/node.py b/ros_bt_py/ros_bt_py/node.py
index 7b58e05..fc23620 100644
--- a/ros_bt_py/ros_bt_py/node.py
+++ b/ros_bt_py/ros_bt_py/node.py
@@ -681,7 +681,8 @@ class Node(abc.ABC):
                     action_name="shutdown()",
                 ):
                     case Err(e):
-                        return Err(e)
+                        # Still shut down the children
+                        error = error or e
                     case Ok(None):
                         pass
 
-- 
2.43.0


From 3616665ed426eb747f7d0b78d76832e45b42609b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:28 +0000
Subject: [PATCH 26/78] fix: leave WAITING_FOR_TICK when a single-ticked tree
 is stopped

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 41244b2..35b5c0b 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -1326,9 +1326,11 @@ class TreeExecManager:
                     root.untick()
                     state = root.state
                     if state in [BTNodeState.IDLE, BTNodeState.PAUSED]:
+                        self.state = TreeState.IDLE
                         response.tree_state = TreeState.IDLE
                         response.success = True
                     else:
+                        self.state = TreeState.ERROR
                         response.tree_state = TreeState.ERROR
                         response.success = False
                         self.get_logger().error(
@@ -1336,9 +1338,11 @@ class TreeExecManager:
                             f"IDLE nor PAUSED, but {state}"
                         )
                         response.error_message = "Failed to untick root node."
+                        self.publish_state()
                         return response
                 else:
                     self.get_logger().info("Unticking a tree with no nodes.")
+                    self.state = TreeState.IDLE
                     response.tree_state = TreeState.IDLE
                     response.success = True
 
-- 
2.43.0


From cc5bc87790b13ce48a9ccd961043f81558cf03f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:31 +0000
Subject: [PATCH 27/78] fix: edits and the start of ticking exclude each other

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 96 +++++++++++++-----------
 1 file changed, 51 insertions(+), 45 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 35b5c0b..992e052 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -106,20 +106,22 @@ def is_edit_service(func):
 
     @wraps(func)
     def service_handler(self: "TreeExecManager", request: Any, response: Any, **kwds):
-        if self.state != TreeState.EDITABLE:
-            response.success = False
-            response.error_message = (
-                f"Cannot edit tree in state {self.state}."
-                f"You need to shut down the tree to enable editing."
-            )
-            return response
-        try:
-            with self._edit_lock:
+        with self._edit_lock:
+            # Execution starts with the lock held, so the state checked here
+            # is still the same when the edit is made
+            if self.state != TreeState.EDITABLE:
+                response.success = False
+                response.error_message = (
+                    f"Cannot edit tree in state {self.state}."
+                    f"You need to shut down the tree to enable editing."
+                )
+                return response
+            try:
                 return func(self, request, response, **kwds)
-        finally:
-            # TODO Find a way to check if we're the outermost level
-            #   to reduce repeating publish calls
-            self.publish_structure()
+            finally:
+                # TODO Find a way to check if we're the outermost level
+                #   to reduce repeating publish calls
+                self.publish_structure()
 
     return service_handler
 
@@ -1046,24 +1048,26 @@ class TreeExecManager:
         else:
             if not self._tick_thread:
                 self._tick_thread = Thread(target=self.tick_report_exceptions)
-            find_root_result = self.find_root()
-            if find_root_result.is_err():
-                response.success = False
-                response.error_message = (
-                    "Failed to detrmine tree root: "
-                    f"{str(find_root_result.unwrap_err())}"
-                )
-                response.tree_state = self.state
-                return response
-            root = find_root_result.unwrap()
-            if not root:
-                response.success = True
-                response.tree_state = self.state
-                return response
+            # No edit may be in progress when ticking starts
+            with self._edit_lock:
+                find_root_result = self.find_root()
+                if find_root_result.is_err():
+                    response.success = False
+                    response.error_message = (
+                        "Failed to detrmine tree root: "
+                        f"{str(find_root_result.unwrap_err())}"
+                    )
+                    response.tree_state = self.state
+                    return response
+                root = find_root_result.unwrap()
+                if not root:
+                    response.success = True
+                    response.tree_state = self.state
+                    return response
 
-            self._once = True
-            self._stop_after_result = False
-            self.state = TreeState.TICKING
+                self._once = True
+                self._stop_after_result = False
+                self.state = TreeState.TICKING
 
             self._tick_thread.start()
             # Give the tick thread some time to finish
@@ -1119,21 +1123,23 @@ class TreeExecManager:
             if not self._tick_thread:
                 self._tick_thread = Thread(target=self.tick_report_exceptions)
 
-            find_root_result = self.find_root()
-            if find_root_result.is_err():
-                response.success = False
-                response.error_message = (
-                    "Failed to detrmine tree root: "
-                    f"{str(find_root_result.unwrap_err())}"
-                )
-                response.tree_state = self.state
-                return response
-            root = find_root_result.unwrap()
-            if not root:
-                response.success = True
-                response.tree_state = self.state
-                return response
-            self.state = TreeState.TICKING
+            # No edit may be in progress when ticking starts
+            with self._edit_lock:
+                find_root_result = self.find_root()
+                if find_root_result.is_err():
+                    response.success = False
+                    response.error_message = (
+                        "Failed to detrmine tree root: "
+                        f"{str(find_root_result.unwrap_err())}"
+                    )
+                    response.tree_state = self.state
+                    return response
+                root = find_root_result.unwrap()
+                if not root:
+                    response.success = True
+                    response.tree_state = self.state
+                    return response
+                self.state = TreeState.TICKING
             self._once = False
             self._stop_after_result = False
             if request.command == ControlTreeExecution.Request.TICK_UNTIL_RESULT:
-- 
2.43.0


From 57a33ba97ffef40ca1856f00eedbdc7920b8c3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:31 +0000
Subject: [PATCH 28/78] fix: units in the tick duration warning and the
 published tick frequency

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 992e052..548c690 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -748,14 +748,16 @@ class TreeExecManager:
             # We know that Time - Time = Duration
             tick_rate = self.tick_frequency_hz
 
-            if (1 / tick_rate) > (duration.nanoseconds * 1e9):
+            duration_s = duration.nanoseconds * 1e-9
+            if duration_s > (1 / tick_rate):
                 self.get_logger().warn(
                     "Tick took longer than set period, cannot tick at "
                     f"{self.tick_frequency_hz:.2f} Hz"
                 )
 
             self.tick_sliding_window.pop(0)
-            self.tick_sliding_window.append(duration.nanoseconds * 1e9)
+            # The rate only sleeps for what is left of the period
+            self.tick_sliding_window.append(1 / max(duration_s, 1 / tick_rate))
             tick_frequency_avg = sum(self.tick_sliding_window) / len(
                 self.tick_sliding_window
             )
-- 
2.43.0


From 66e9e35b5270538cab4507ed997322a7120e8856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:11 +0000
Subject: [PATCH 29/78] fix: refuse negative and NaN tick frequencies like zero

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 548c690..6a78823 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -471,7 +471,7 @@ class TreeExecManager:
     @typechecked
     def tick_frequency_hz(self, frequency: float) -> None:
         with self._tree_lock:
-            if frequency == 0.0:
+            if not frequency > 0.0:
                 self.get_logger().warn(
                     f"Tick frequency of {frequency} is invalid. Setting to 10.0"
                 )
-- 
2.43.0


From 3a41705c2d026d2e8d6aef65c9b192d6a76c456e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:29 +0000
Subject: [PATCH 30/78] fix: trees are only saved inside of the storage folder

---
 ros_bt_py/ros_bt_py/package_manager.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/package_manager.py b/ros_bt_py/ros_bt_py/package_manager.py
index 18d22de..47242d2 100644
--- a/ros_bt_py/ros_bt_py/package_manager.py
+++ b/ros_bt_py/ros_bt_py/package_manager.py
@@ -154,6 +154,12 @@ class PackageManager(object):
                 os.path.join(request.storage_path, request.filepath)
             )
 
+            storage_path = os.path.abspath(request.storage_path)
+            if os.path.commonpath([storage_path, save_filepath]) != storage_path:
+                response.success = False
+                response.error_message = "File path is outside of the storage folder!"
+                return response
+
             split_save_filepath = save_filepath.rstrip(os.sep)  # split trailing /
             path, filename = os.path.split(split_save_filepath)
 
-- 
2.43.0


From 3712f84a2168c660a37435e05eb4c639bfdf662f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:57 +0000
Subject: [PATCH 31/78] fix: invalid type flags in a message are reported
 instead of raised

---
 ros_bt_py/ros_bt_py/data_types.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 348e73d..1e45fb5 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -182,7 +182,10 @@ class DataContainer(Generic[ANY], abc.ABC):
             case Err(e):
                 return Err(e)
             case Ok(d):
-                obj = cls(**d)
+                try:
+                    obj = cls(**d)
+                except (RuntimeError, ValueError, TypeError) as ex:
+                    return Err(f"Invalid type: {ex}")
         return Ok(obj)
 
     @abc.abstractmethod
-- 
2.43.0


From 65ddb7838c0b02a634910336f448d65475b54f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:46 +0000
Subject: [PATCH 32/78] fix: tree files with values of a wrong type are refused
 instead of raising

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 6a78823..189c726 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -126,6 +126,27 @@ def is_edit_service(func):
     return service_handler
 
 
+def check_field_types(msg: Any) -> None:
+    """
+    Check the type of every field of the given message, and of the messages in it.
+
+    Newer ROS distributions don't do this on assignment by default.
+
+    :raises: `AssertionError`
+    """
+    check_fields = getattr(msg, "_check_fields", None)
+    if check_fields is not None:
+        msg._check_fields = True
+    for field in msg.get_fields_and_field_types():
+        value = getattr(msg, field)
+        setattr(msg, field, value)
+        for item in value if isinstance(value, list) else [value]:
+            if hasattr(item, "get_fields_and_field_types"):
+                check_field_types(item)
+    if check_fields is not None:
+        msg._check_fields = check_fields
+
+
 @typechecked
 def parse_tree_yaml(tree_yaml: str) -> MigrateTree.Response:
     response = MigrateTree.Response()
@@ -159,6 +180,7 @@ def parse_tree_yaml(tree_yaml: str) -> MigrateTree.Response:
             datum.pop("version", None)
             try:
                 rosidl_runtime_py.set_message_fields(response.tree, datum)
+                check_field_types(response.tree)
             except Exception as ex:
                 response.success = False
                 response.error_message = f"Tree file does not describe a tree: {ex}"
-- 
2.43.0


From 9f0d7d3874d79a5e3516fe470956a515d1ab5d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:59 +0000
Subject: [PATCH 33/78] fix: no invalid type description raises

---
 ros_bt_py/ros_bt_py/data_types.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 1e45fb5..b9efaab 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -178,14 +178,15 @@ class DataContainer(Generic[ANY], abc.ABC):
             raise NotImplementedError("Called on abstract base class")
         if msg.type_identifier != cls.type_identifier:
             return Err("Wrong type identifier")
-        match cls._dict_from_msg(msg):
-            case Err(e):
-                return Err(e)
-            case Ok(d):
-                try:
+        # The message can contain anything
+        try:
+            match cls._dict_from_msg(msg):
+                case Err(e):
+                    return Err(e)
+                case Ok(d):
                     obj = cls(**d)
-                except (RuntimeError, ValueError, TypeError) as ex:
-                    return Err(f"Invalid type: {ex}")
+        except Exception as ex:
+            return Err(f"Invalid type: {ex}")
         return Ok(obj)
 
     @abc.abstractmethod
-- 
2.43.0


From 4f89e916923ff93a6a975529452f58108dc39c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:26 +0000
Subject: [PATCH 34/78] fix: shutting down a node that was never set up does
 not call its shutdown hook

---
 ros_bt_py/ros_bt_py/node.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/node.py b/ros_bt_py/ros_bt_py/node.py
index fc23620..807c6bc 100644
--- a/ros_bt_py/ros_bt_py/node.py
+++ b/ros_bt_py/ros_bt_py/node.py
@@ -668,6 +668,10 @@ class Node(abc.ABC):
         with report_state:
             error = None
 
+            if self.state == BTNodeState.UNINITIALIZED:
+                # There is nothing to clean up yet
+                self.state = BTNodeState.SHUTDOWN
+
             if self.state != BTNodeState.SHUTDOWN:
                 match self._do_shutdown():
                     case Err(e):
-- 
2.43.0


From 04544f7403e10baa792c0e885a5584ac0030533e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 35/78] fix: EnumFields looks up the type of a constant, not
 its name

---
 ros_bt_py/ros_bt_py/ros_nodes/enum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/enum.py b/ros_bt_py/ros_bt_py/ros_nodes/enum.py
index 3e0fcfb..2cfe1c1 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/enum.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/enum.py
@@ -74,7 +74,7 @@ class EnumFields(Leaf):
         node_outputs = {}
         for field in self._constants:
             field_type = type(getattr(self._message_class, field))
-            if field not in GENERIC_TYPE_MAP.keys():
+            if field_type not in GENERIC_TYPE_MAP.keys():
                 return Err(NodeConfigError(f"Field {field} has an incompatible type"))
             match get_iotype_for_dict(GENERIC_TYPE_MAP[field_type]):
                 case Err(e):
-- 
2.43.0


From 105a6cd15809a795546e2b59c74f7f630069ffd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 36/78] fix: type values that can't be resolved are refused
 with an error instead of raising

---
 ros_bt_py/ros_bt_py/data_types.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index b9efaab..eb97b80 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -43,7 +43,7 @@ from typing import (
     TypeGuard,
     TypeVar,
 )
-from typeguard import typechecked
+from typeguard import TypeCheckError, typechecked
 
 from ros_bt_py.helpers import INT_LIMITS, FLOAT_LIMITS, INT_FLOAT_MAX
 from ros_bt_py.ros_helpers import get_interface_name
@@ -1028,7 +1028,14 @@ def get_iotype_for_dict(value_dict: dict) -> Result[DataContainer, str]:
                     args_dict[ELEMENT_KEY] = c
         io_instance = io_class(**args_dict)
         return Ok(io_instance)
-    except (KeyError, TypeError) as e:
+    except (
+        AttributeError,
+        ImportError,
+        KeyError,
+        TypeError,
+        ValueError,
+        TypeCheckError,
+    ) as e:
         return Err(str(e))
 
 
@@ -1451,7 +1458,7 @@ class RosTypeContainer(TypeContainerMixin, RosContainer):
     def _deserialize_value(self, ser_value: str) -> Result[Any, str]:
         try:
             msg = rosidl_runtime_py.utilities.get_interface(ser_value)
-        except ValueError:
+        except (AttributeError, ImportError, ValueError):
             return Err(
                 f"Serialized value {ser_value} does not point to a valid ROS interface"
             )
@@ -1464,6 +1471,9 @@ class RosTypeContainer(TypeContainerMixin, RosContainer):
                 return Err(None)
             case Ok(v):
                 value = v
+        # Services and actions don't have values of their own
+        if not rosidl_runtime_py.utilities.is_message(value):
+            return Err(None)
         return Ok(RosMessageType(message_type=value))
 
 
-- 
2.43.0


From e6d6f0eb80a5325e819a4d1ed58a36c9170aef9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 37/78] fix: ThrottleSuccess looks at the state its child
 returns, not at the result around it

---
 ros_bt_py/ros_bt_py/ros_nodes/throttle.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/throttle.py b/ros_bt_py/ros_bt_py/ros_nodes/throttle.py
index e1f5162..7664de0 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/throttle.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/throttle.py
@@ -140,9 +140,11 @@ class ThrottleSuccess(Decorator):
         ):
             for child in self.children:
                 result = child.tick()
-                if result == BTNodeState.RUNNING:
+                if result.is_err():
                     return result
-                if result == BTNodeState.SUCCEEDED:
+                if result.ok() == BTNodeState.RUNNING:
+                    return result
+                if result.ok() == BTNodeState.SUCCEEDED:
                     self._last_success_tick = current_time
                     return result
         return Ok(BTNodeState.FAILED)
-- 
2.43.0


From 1b48a29e6f0d850cc80e4bad608c6f06b4eb700f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 38/78] fix: the utility of parallel nodes can be calculated
 before they are set up

---
 ros_bt_py/ros_bt_py/nodes/parallel.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/parallel.py b/ros_bt_py/ros_bt_py/nodes/parallel.py
index 8c528ec..9bc0ff7 100644
--- a/ros_bt_py/ros_bt_py/nodes/parallel.py
+++ b/ros_bt_py/ros_bt_py/nodes/parallel.py
@@ -161,10 +161,16 @@ class Parallel(FlowControl):
         return Ok(BTNodeState.IDLE)
 
     def _do_calculate_utility(self) -> Result[UtilityBounds, BehaviorTreeException]:
-        if len(self.children) < self._needed_successes:
+        # This may be called before the node is set up
+        match self.inputs.get_value_as("needed_successes", int):
+            case Err(e):
+                return Err(e)
+            case Ok(i):
+                needed_successes = i
+        if len(self.children) < needed_successes:
             return Err(
                 BehaviorTreeException(
-                    f"Option value needed_successes ({self._needed_successes}) "
+                    f"Option value needed_successes ({needed_successes}) "
                     " cannot be larger than "
                     f"the number of children ({len(self.children)})"
                 )
@@ -209,7 +215,7 @@ class Parallel(FlowControl):
         if not bounds.can_execute:
             return Ok(bounds)
 
-        success_threshold = self._needed_successes
+        success_threshold = needed_successes
 
         best_success_group = sorted(child_bounds, key=lambda b: b.lower_bound_success)[
             :success_threshold
@@ -395,10 +401,16 @@ class ParallelFailureTolerance(FlowControl):
         return Ok(BTNodeState.IDLE)
 
     def _do_calculate_utility(self) -> Result[UtilityBounds, BehaviorTreeException]:
-        if len(self.children) < self._needed_successes:
+        # This may be called before the node is set up
+        match self.inputs.get_value_as("needed_successes", int):
+            case Err(e):
+                return Err(e)
+            case Ok(i):
+                needed_successes = i
+        if len(self.children) < needed_successes:
             return Err(
                 BehaviorTreeException(
-                    f"Option value needed_successes ({self._needed_successes})"
+                    f"Option value needed_successes ({needed_successes})"
                     " cannot be larger than "
                     f"the number of children ({len(self.children)})"
                 )
@@ -442,7 +454,7 @@ class ParallelFailureTolerance(FlowControl):
         if not bounds.can_execute:
             return Ok(bounds)
 
-        success_threshold = self._needed_successes
+        success_threshold = needed_successes
 
         best_success_group = sorted(child_bounds, key=lambda b: b.lower_bound_success)[
             :success_threshold
-- 
2.43.0


From f4f048110a19a99c585d716ae21ffc142289d914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 39/78] fix: parallel nodes do not claim a utility bound that
 one of their children does not have

---
 ros_bt_py/ros_bt_py/nodes/parallel.py | 56 +++++++++++++++++++--------
 1 file changed, 40 insertions(+), 16 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/parallel.py b/ros_bt_py/ros_bt_py/nodes/parallel.py
index 9bc0ff7..909a1a6 100644
--- a/ros_bt_py/ros_bt_py/nodes/parallel.py
+++ b/ros_bt_py/ros_bt_py/nodes/parallel.py
@@ -217,9 +217,13 @@ class Parallel(FlowControl):
 
         success_threshold = needed_successes
 
-        best_success_group = sorted(child_bounds, key=lambda b: b.lower_bound_success)[
-            :success_threshold
-        ]
+        # An unset bound is unknown, so it is assumed to be the best or worst one
+        best_success_group = sorted(
+            child_bounds,
+            key=lambda b: b.lower_bound_success
+            if b.has_lower_bound_success
+            else -math.inf,
+        )[:success_threshold]
         bounds.has_lower_bound_success = all(
             (b.has_lower_bound_success for b in best_success_group)
         )
@@ -229,7 +233,9 @@ class Parallel(FlowControl):
             )
 
         worst_success_group = sorted(
-            child_bounds, reverse=True, key=lambda b: b.upper_bound_success
+            child_bounds,
+            reverse=True,
+            key=lambda b: b.upper_bound_success if b.has_upper_bound_success else math.inf,
         )[:success_threshold]
         bounds.has_upper_bound_success = all(
             (b.has_upper_bound_success for b in worst_success_group)
@@ -250,9 +256,13 @@ class Parallel(FlowControl):
         # The minimum number of child failures for an overall Parallel failure
         failure_threshold = 1 + (len(self.children) - success_threshold)
 
-        best_failure_group = sorted(child_bounds, key=lambda b: b.lower_bound_failure)[
-            :failure_threshold
-        ]
+        # An unset bound is unknown, so it is assumed to be the best or worst one
+        best_failure_group = sorted(
+            child_bounds,
+            key=lambda b: b.lower_bound_failure
+            if b.has_lower_bound_failure
+            else -math.inf,
+        )[:failure_threshold]
         bounds.has_lower_bound_failure = all(
             (b.has_lower_bound_failure for b in best_failure_group)
         )
@@ -262,7 +272,9 @@ class Parallel(FlowControl):
             )
 
         worst_failure_group = sorted(
-            child_bounds, reverse=True, key=lambda b: b.upper_bound_failure
+            child_bounds,
+            reverse=True,
+            key=lambda b: b.upper_bound_failure if b.has_upper_bound_failure else math.inf,
         )[:failure_threshold]
         bounds.has_upper_bound_failure = all(
             (b.has_upper_bound_failure for b in worst_failure_group)
@@ -456,9 +468,13 @@ class ParallelFailureTolerance(FlowControl):
 
         success_threshold = needed_successes
 
-        best_success_group = sorted(child_bounds, key=lambda b: b.lower_bound_success)[
-            :success_threshold
-        ]
+        # An unset bound is unknown, so it is assumed to be the best or worst one
+        best_success_group = sorted(
+            child_bounds,
+            key=lambda b: b.lower_bound_success
+            if b.has_lower_bound_success
+            else -math.inf,
+        )[:success_threshold]
         bounds.has_lower_bound_success = all(
             (b.has_lower_bound_success for b in best_success_group)
         )
@@ -468,7 +484,9 @@ class ParallelFailureTolerance(FlowControl):
             )
 
         worst_success_group = sorted(
-            child_bounds, reverse=True, key=lambda b: b.upper_bound_success
+            child_bounds,
+            reverse=True,
+            key=lambda b: b.upper_bound_success if b.has_upper_bound_success else math.inf,
         )[:success_threshold]
         bounds.has_upper_bound_success = all(
             (b.has_upper_bound_success for b in worst_success_group)
@@ -489,9 +507,13 @@ class ParallelFailureTolerance(FlowControl):
         # The minimum number of child failures for an overall Parallel failure
         failure_threshold = 1 + (len(self.children) - success_threshold)
 
-        best_failure_group = sorted(child_bounds, key=lambda b: b.lower_bound_failure)[
-            :failure_threshold
-        ]
+        # An unset bound is unknown, so it is assumed to be the best or worst one
+        best_failure_group = sorted(
+            child_bounds,
+            key=lambda b: b.lower_bound_failure
+            if b.has_lower_bound_failure
+            else -math.inf,
+        )[:failure_threshold]
         bounds.has_lower_bound_failure = all(
             (b.has_lower_bound_failure for b in best_failure_group)
         )
@@ -501,7 +523,9 @@ class ParallelFailureTolerance(FlowControl):
             )
 
         worst_failure_group = sorted(
-            child_bounds, reverse=True, key=lambda b: b.upper_bound_failure
+            child_bounds,
+            reverse=True,
+            key=lambda b: b.upper_bound_failure if b.has_upper_bound_failure else math.inf,
         )[:failure_threshold]
         bounds.has_upper_bound_failure = all(
             (b.has_upper_bound_failure for b in worst_failure_group)
-- 
2.43.0


From 218cf47d06ceb38432f9979a57b1ee29020c86fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:10 +0000
Subject: [PATCH 40/78] fix: failure bounds of ParallelFailureTolerance follow
 from the failures it tolerates

---
 ros_bt_py/ros_bt_py/nodes/parallel.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/parallel.py b/ros_bt_py/ros_bt_py/nodes/parallel.py
index 909a1a6..13fc678 100644
--- a/ros_bt_py/ros_bt_py/nodes/parallel.py
+++ b/ros_bt_py/ros_bt_py/nodes/parallel.py
@@ -499,13 +499,17 @@ class ParallelFailureTolerance(FlowControl):
         # Now we do the same for the failures - the only difference
         # here is that failure_threshold is
         #
-        # 1 + (num_children - success_threshold)
+        # 1 + tolerate_failures
         #
-        # because of the semantics of Parallel explained in the class
-        # docstring
+        # because of the semantics of ParallelFailureTolerance explained in
+        # the class docstring
 
-        # The minimum number of child failures for an overall Parallel failure
-        failure_threshold = 1 + (len(self.children) - success_threshold)
+        # The minimum number of child failures for an overall failure
+        match self.inputs.get_value_as("tolerate_failures", int):
+            case Err(e):
+                return Err(e)
+            case Ok(i):
+                failure_threshold = 1 + i
 
         # An unset bound is unknown, so it is assumed to be the best or worst one
         best_failure_group = sorted(
-- 
2.43.0


From fd53126b22173f1619ec0c8a2972094970121ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:17 +0000
Subject: [PATCH 41/78] fix: topic subscribers find publishers of their type
 when calculating their utility

---
 ros_bt_py/ros_bt_py/ros_nodes/topic.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/topic.py b/ros_bt_py/ros_bt_py/ros_nodes/topic.py
index b179837..05d678e 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/topic.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/topic.py
@@ -52,6 +52,7 @@ from ros_bt_py.exceptions import BehaviorTreeException
 from ros_bt_py.helpers import BTNodeState
 from ros_bt_py.node import Leaf, define_bt_node
 from ros_bt_py.node_config import NodeConfig
+from ros_bt_py.ros_helpers import get_interface_name
 
 
 @define_bt_node(
@@ -228,7 +229,7 @@ class TopicSubscriber(Leaf):
 
         for endpoint in self.ros_node.get_publishers_info_by_topic(resolved_topic):
             if (
-                endpoint.topic_type == topic_type
+                endpoint.topic_type == get_interface_name(topic_type)
                 and endpoint.qos_profile == qos_profile
             ):
                 # if the topic we want exists, we can do our job, so
@@ -238,7 +239,7 @@ class TopicSubscriber(Leaf):
                         can_execute=True,
                         has_lower_bound_success=True,
                         has_upper_bound_success=True,
-                        has_lower_bound_failre=True,
+                        has_lower_bound_failure=True,
                         has_upper_bound_failure=True,
                     )
                 )
@@ -431,7 +432,7 @@ class TopicMemorySubscriber(Leaf):
 
         for endpoint in self.ros_node.get_publishers_info_by_topic(resolved_topic):
             if (
-                endpoint.topic_type == topic_type
+                endpoint.topic_type == get_interface_name(topic_type)
                 and endpoint.qos_profile == qos_profile
             ):
                 # if the topic we want exists, we can do our job, so
@@ -441,7 +442,7 @@ class TopicMemorySubscriber(Leaf):
                         can_execute=True,
                         has_lower_bound_success=True,
                         has_upper_bound_success=True,
-                        has_lower_bound_failre=True,
+                        has_lower_bound_failure=True,
                         has_upper_bound_failure=True,
                     )
                 )
-- 
2.43.0


From 80e817d1bd68d7e8d1b47427e22cd06eb8f2b0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 42/78] fix: a value that does not fit an output is an error
 instead of an exception

---
 ros_bt_py/ros_bt_py/node_config.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/node_config.py b/ros_bt_py/ros_bt_py/node_config.py
index 22c859d..5790635 100644
--- a/ros_bt_py/ros_bt_py/node_config.py
+++ b/ros_bt_py/ros_bt_py/node_config.py
@@ -29,7 +29,7 @@
 from copy import deepcopy
 from typing import Any, Optional, TypeVar
 
-from typeguard import typechecked
+from typeguard import TypeCheckError, typechecked
 
 import itertools
 
@@ -112,7 +112,12 @@ class NodeOutputMap(NodeDataMap):
                 return Err(e)
             case Ok(c):
                 container = c
-        match container.set_value(value):
+        try:
+            result = container.set_value(value)
+        except TypeCheckError as ex:
+            # The value is of a wrong type
+            result = Err(str(ex))
+        match result:
             case Err(s):
                 return Err(
                     NodeConfigError(
-- 
2.43.0


From a8666cc5b23a5d8dc93ff312b0af3758f80c78f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 43/78] fix: SetAttr reads its input and fails if the attribute
 can't be set

---
 ros_bt_py/ros_bt_py/nodes/setters.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/setters.py b/ros_bt_py/ros_bt_py/nodes/setters.py
index 28ef75c..70d20ad 100644
--- a/ros_bt_py/ros_bt_py/nodes/setters.py
+++ b/ros_bt_py/ros_bt_py/nodes/setters.py
@@ -105,16 +105,21 @@ class SetAttr(Leaf):
             rsetattr(obj, attr, val)
             return obj
 
-        return (
-            do(
-                Ok(set_and_return(o, n, v))
-                for o in self.inputs.get_value("object")
-                for n in self.inputs.get_value_as("attr_name", str)
-                for v in self.inputs.get_value("value")
+        try:
+            return (
+                do(
+                    Ok(set_and_return(o, n, v))
+                    for o in self.inputs.get_value("object")
+                    for n in self.inputs.get_value_as("attr_name", str)
+                    for v in self.inputs.get_value("attr_value")
+                )
+                .and_then(lambda val: self.outputs.set_value("new_object", val))
+                .map(lambda _: BTNodeState.SUCCEEDED)
             )
-            .and_then(lambda val: self.outputs.set_value("new_object", val))
-            .map(lambda _: BTNodeState.SUCCEEDED)
-        )
+        # The attribute doesn't exist or doesn't accept the value
+        except (AttributeError, AssertionError, TypeError, ValueError) as e:
+            self.logwarn(str(e))
+            return Ok(BTNodeState.FAILED)
 
     def _do_shutdown(self) -> Result[BTNodeState, BehaviorTreeException]:
         return Ok(BTNodeState.SHUTDOWN)
-- 
2.43.0


From 1ae2347406d439789fcae8b75e30ddd9c751daa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 44/78] fix: format strings honour the conversions !s, !r and
 !a

---
 ros_bt_py/ros_bt_py/nodes/format.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/format.py b/ros_bt_py/ros_bt_py/nodes/format.py
index eff1a1e..144476a 100644
--- a/ros_bt_py/ros_bt_py/nodes/format.py
+++ b/ros_bt_py/ros_bt_py/nodes/format.py
@@ -66,10 +66,7 @@ class ExtendedFormatter(Formatter):
             return str(value).capitalize()
 
         # Do the default conversion or raise error if no matching conversion found
-        super(ExtendedFormatter, self).convert_field(value, conversion)
-
-        # return for None case
-        return value
+        return super(ExtendedFormatter, self).convert_field(value, conversion)
 
 
 myformatter = ExtendedFormatter()
-- 
2.43.0


From e30b12e841d613a91184223140f0d021aa8e0e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 45/78] fix: FormatStringList formats its strings instead of
 always failing

---
 ros_bt_py/ros_bt_py/nodes/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/format.py b/ros_bt_py/ros_bt_py/nodes/format.py
index 144476a..f6f2b24 100644
--- a/ros_bt_py/ros_bt_py/nodes/format.py
+++ b/ros_bt_py/ros_bt_py/nodes/format.py
@@ -189,7 +189,7 @@ class FormatStringList(Leaf):
             return (
                 do(
                     Ok([myformatter.format(s, **d) for s in s_l])
-                    for s_l in self.inputs.get_value_as("format_strings", list[str])
+                    for s_l in self.inputs.get_value_as("format_strings", list)
                     for d in self.inputs.get_value_as("dict", dict)
                 )
                 .and_then(lambda val: self.outputs.set_value("formatted_strings", val))
-- 
2.43.0


From a975c212934f37cf02dcfd2bd4a2938e229e319b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 46/78] fix: operations without a result are an error instead
 of an exception

---
 ros_bt_py/ros_bt_py/nodes/maths.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/maths.py b/ros_bt_py/ros_bt_py/nodes/maths.py
index 3afb7e8..8dc99ee 100644
--- a/ros_bt_py/ros_bt_py/nodes/maths.py
+++ b/ros_bt_py/ros_bt_py/nodes/maths.py
@@ -70,6 +70,16 @@ def get_conversion(
         )
 
 
+def calculate(
+    operation: Callable[..., Any], *operands: Any
+) -> Result[Any, BehaviorTreeException]:
+    """Call `operation` and return an error if it has no result for these operands."""
+    try:
+        return Ok(operation(*operands))
+    except (ArithmeticError, TypeError, ValueError) as ex:
+        return Err(BehaviorTreeException(f"Invalid operation on {operands}: {ex}"))
+
+
 @define_bt_node(
     NodeConfig(
         inputs={
@@ -206,7 +216,7 @@ class Operation(Leaf):
     def _do_tick(self) -> Result[BTNodeState, BehaviorTreeException]:
         return (
             do(
-                Ok(BINARY_OPERATIONS[s](a, b))
+                calculate(BINARY_OPERATIONS[s], a, b)
                 for s in self.inputs.get_value_as("operator", str)
                 for a in self.inputs.get_value("a")
                 for b in self.inputs.get_value("b")
@@ -306,7 +316,7 @@ class UnaryOperation(Leaf):
     def _do_tick(self) -> Result[BTNodeState, BehaviorTreeException]:
         return (
             do(
-                Ok(UNARY_OPERATIONS[s](i))
+                calculate(UNARY_OPERATIONS[s], i)
                 for s in self.inputs.get_value_as("operator", str)
                 for i in self.inputs.get_value("in")
             )
-- 
2.43.0


From 0ba9b8d1e9a304c4dbefce6cbf0b5398f90e2d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 47/78] fix: Convert works with the types chosen on its inputs

---
 ros_bt_py/ros_bt_py/nodes/maths.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/maths.py b/ros_bt_py/ros_bt_py/nodes/maths.py
index 8dc99ee..9a6ff87 100644
--- a/ros_bt_py/ros_bt_py/nodes/maths.py
+++ b/ros_bt_py/ros_bt_py/nodes/maths.py
@@ -35,6 +35,8 @@ from typeguard import typechecked
 from ros_bt_py.vendor.result import Result, Ok, Err, do
 
 from ros_bt_py.data_types import (
+    GENERIC_TYPE_MAP,
+    IDENTIFIER_KEY,
     GenericType,
     ReferenceType,
     StringType,
@@ -45,6 +47,14 @@ from ros_bt_py.node import Leaf, define_bt_node
 from ros_bt_py.node_config import NodeConfig
 
 
+def get_builtin_type(type_dict: dict) -> type:
+    """Return the python type that is described by the value of a :obj:`GenericType`."""
+    for type_, option in GENERIC_TYPE_MAP.items():
+        if option[IDENTIFIER_KEY] == type_dict[IDENTIFIER_KEY]:
+            return type_
+    return object
+
+
 @typechecked
 def get_conversion(
     in_type: type, out_type: type
@@ -101,17 +111,15 @@ class Convert(Leaf):
 
     def _do_setup(self) -> Result[BTNodeState, BehaviorTreeException]:
         match do(
-            Ok((i, o, c))
-            for i in self.inputs.get_value_as("input_type", type)
-            for o in self.inputs.get_value_as("output_type", type)
-            for c in self.inputs.get_value_as("clamp", bool)
+            Ok((i, o))
+            for i in self.inputs.get_value_as("input_type", dict)
+            for o in self.inputs.get_value_as("output_type", dict)
         ):
             case Err(e):
                 return Err(e)
-            case Ok((i, o, c)):
-                self.in_type = i
-                self.out_type = o
-                self.clamp = c
+            case Ok((i, o)):
+                self.in_type = get_builtin_type(i)
+                self.out_type = get_builtin_type(o)
 
         match get_conversion(self.in_type, self.out_type):
             case Err(e):
@@ -132,7 +140,7 @@ class Convert(Leaf):
     def _do_tick(self) -> Result[BTNodeState, BehaviorTreeException]:
         return (
             self.inputs.get_value_as("in", self.in_type)
-            .map(lambda val: self.conversion(val))
+            .and_then(lambda val: calculate(self.conversion, val))
             .and_then(lambda val: self.outputs.set_value("out", val))
             .map(lambda _: BTNodeState.SUCCEEDED)
         )
-- 
2.43.0


From a4e9e36b11eaea91d399ea95cb1ef1e1b65d3960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:01 +0000
Subject: [PATCH 48/78] fix: an exception raised while ticking ends the
 execution in ERROR instead of leaving it TICKING

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 189c726..ca8252f 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -671,7 +671,13 @@ class TreeExecManager:
 
     def tick_report_exceptions(self) -> None:
         """Wrap :meth:`TreeManager.tick()` and catch *all* errors."""
-        tick_result = self.tick()
+        try:
+            tick_result = self.tick()
+        except Exception as ex:
+            # Nodes can raise anything
+            tick_result = Err(
+                BehaviorTreeException(f"{type(ex).__name__} while ticking: {ex}")
+            )
 
         if tick_result.is_err():
             self.get_logger().error(
-- 
2.43.0


From 70d65cbb9c817a8b7444543373dae8396c75dc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:04 +0000
Subject: [PATCH 49/78] fix: feedback outputs of an action follow its feedback
 type

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index 015af54..c441332 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -510,7 +510,7 @@ class Action(ActionBase):
         for (
             field_name,
             field_type,
-        ) in self._result_type.get_fields_and_field_types().items():
+        ) in self._feedback_type.get_fields_and_field_types().items():
             combined_fields[f"feedback.{field_name}"] = field_type
         outputs = {}
         for field_name, field_type in combined_fields.items():
-- 
2.43.0


From de13597f7efce2bdf6078b79f24c2278655a024b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:04 +0000
Subject: [PATCH 50/78] fix: an action sends its goal again after it was
 interrupted

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index c441332..3cb42e6 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -152,6 +152,7 @@ class ActionBase(Leaf):
         self._cancel_goal_future = None
 
         self._action_client = None
+        self._input_goal = None
 
         self._last_goal_time: Optional[Time] = None
 
@@ -263,6 +264,13 @@ class ActionBase(Leaf):
         """Tick to request the execution of a new goal on the action server."""
         if self._action_client is None:
             return Err(BehaviorTreeException("No action client available"))
+        if self._input_goal is None:
+            # The inputs did not change since the goal was sent the last time
+            match self.get_goal():
+                case Err(e):
+                    return Err(e)
+                case Ok(g):
+                    self._input_goal = g
         self._new_goal_request_future = self._action_client.send_goal_async(
             goal=self._input_goal, feedback_callback=self._feedback_cb
         )
-- 
2.43.0


From 0bac482b3280933f06d59520a7b1d3f68e2d74a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:04 +0000
Subject: [PATCH 51/78] fix: an action whose goal is rejected fails

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index 3cb42e6..88fb87a 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -296,8 +296,12 @@ class ActionBase(Leaf):
             self._running_goal_handle = self._new_goal_request_future.result()
             self._new_goal_request_future = None
 
-            if self._running_goal_handle is None:
+            if (
+                self._running_goal_handle is None
+                or not self._running_goal_handle.accepted
+            ):
                 self.logwarn("Action goal was rejeced by the server!")
+                self._running_goal_handle = None
                 self._internal_state = ActionStates.FINISHED
                 return Ok(BTNodeState.FAILED)
 
-- 
2.43.0


From 78afa8df25b2fb6dba455b2a98d230ead4d9c254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:04 +0000
Subject: [PATCH 52/78] fix: an action gets a new goal while the server has not
 accepted the last one

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index 88fb87a..37b89f5 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -303,8 +303,14 @@ class ActionBase(Leaf):
                 self.logwarn("Action goal was rejeced by the server!")
                 self._running_goal_handle = None
                 self._internal_state = ActionStates.FINISHED
+                if self._input_goal is not None:
+                    return Ok(BTNodeState.RUNNING)
                 return Ok(BTNodeState.FAILED)
 
+            if self._input_goal is not None:
+                # There is a newer goal by now
+                return self._do_tick_cancel_running_goal()
+
             self._running_goal_start_time = self.ros_node.get_clock().now()
             self._running_goal_future = self._running_goal_handle.get_result_async()
 
@@ -334,11 +340,11 @@ class ActionBase(Leaf):
                     return Err(e)
                 case Ok(g):
                     self._input_goal = g
-        if updated and self._internal_state not in [
-            ActionStates.IDLE,
-            ActionStates.FINISHED,
-            ActionStates.WAITING_FOR_GOAL_CANCELLATION,
-        ]:
+        # A goal can only be cancelled once the server accepted it
+        if (
+            updated
+            and self._internal_state == ActionStates.WAITING_FOR_ACTION_COMPLETE
+        ):
             self._internal_state = ActionStates.REQUEST_GOAL_CANCELLATION
 
         if self._action_client is None:
-- 
2.43.0


From be526dbd522e0692f230095dd46f843da9860ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:04 +0000
Subject: [PATCH 53/78] fix: an action whose goal is aborted or cancelled by
 the server fails

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index 37b89f5..49379ed 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -33,6 +33,7 @@ from enum import Enum
 
 from ros_bt_py.vendor.result import Result, Ok, Err
 
+from action_msgs.msg import GoalStatus
 from rclpy.action.client import ActionClient
 from rclpy.callback_groups import ReentrantCallbackGroup
 from rclpy.time import Time
@@ -181,6 +182,11 @@ class ActionBase(Leaf):
             self._running_goal_handle = None
             self._running_goal_future = None
             self._internal_state = ActionStates.FINISHED
+            if result.status != GoalStatus.STATUS_SUCCEEDED:
+                self.logwarn("Action was aborted or cancelled, publishing result!")
+                return self.set_result_outputs(result.result).map(
+                    lambda _: BTNodeState.FAILED
+                )
             self.loginfo("Action succeeded, publishing result!")
             return self.set_result_outputs(result.result)
 
-- 
2.43.0


From 7ce2c562e5fad9f76feb77f35c41e7abe3249032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:04 +0000
Subject: [PATCH 54/78] fix: an action that is interrupted before it cancels
 its goal cancels it

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index 49379ed..a1bd4e7 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -402,7 +402,10 @@ class ActionBase(Leaf):
             return Ok(BTNodeState.RUNNING)
 
     def _do_untick(self) -> Result[BTNodeState, BehaviorTreeException]:
-        if self._internal_state == ActionStates.WAITING_FOR_ACTION_COMPLETE:
+        if self._internal_state in [
+            ActionStates.WAITING_FOR_ACTION_COMPLETE,
+            ActionStates.REQUEST_GOAL_CANCELLATION,
+        ]:
             cancel_result = self._do_tick_cancel_running_goal()
             if cancel_result.is_err():
                 return cancel_result
-- 
2.43.0


From 4455df343dbc65a51176a4d0abc511d7bd68c476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:05 +0000
Subject: [PATCH 55/78] fix: an action cancels a goal that is accepted after it
 was interrupted

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index a1bd4e7..0ad35f6 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -266,6 +266,14 @@ class ActionBase(Leaf):
             return Ok(BTNodeState.FAILED)
         return Ok(BTNodeState.RUNNING)
 
+    def _cancel_late_goal(self, client: Optional[ActionClient], future) -> None:
+        """Cancel a goal that was accepted after the node was interrupted."""
+        goal_handle = future.result()
+        if goal_handle is not None and goal_handle.accepted:
+            goal_handle.cancel_goal_async()
+        if client is not None:
+            client.destroy()
+
     def _do_tick_send_new_goal(self) -> Result[BTNodeState, BehaviorTreeException]:
         """Tick to request the execution of a new goal on the action server."""
         if self._action_client is None:
@@ -410,6 +418,16 @@ class ActionBase(Leaf):
             if cancel_result.is_err():
                 return cancel_result
 
+        if self._new_goal_request_future is not None:
+            # The goal can only be cancelled once it is accepted.
+            # This takes the client that was used to send it.
+            client = self._action_client
+            self._action_client = None
+            self._new_goal_request_future.add_done_callback(
+                lambda future: self._cancel_late_goal(client, future)
+            )
+            self._new_goal_request_future = None
+
         self._last_goal_time = None
         self._running_goal_future = None
         self._running_goal_handle = None
-- 
2.43.0


From d0bd8368811b39892941be53a1449d07b2ae7e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:05 +0000
Subject: [PATCH 56/78] fix: an action whose name changes while it is idle uses
 the new name

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index 0ad35f6..4fc9d49 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -354,6 +354,13 @@ class ActionBase(Leaf):
                     return Err(e)
                 case Ok(g):
                     self._input_goal = g
+            if (
+                self._internal_state == ActionStates.IDLE
+                and self._action_client is not None
+            ):
+                # The client is for the previous action name
+                self._action_client.destroy()
+                self._action_client = None
         # A goal can only be cancelled once the server accepted it
         if (
             updated
-- 
2.43.0


From ab3586f0b8a448705985676fbb7cedb2b1e7ef24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:05 +0000
Subject: [PATCH 57/78] fix: an action outputs the last feedback of its goal
 and none of earlier goals

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index 4fc9d49..dde30d8 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -170,6 +170,11 @@ class ActionBase(Leaf):
         if self._running_goal_handle is None or self._running_goal_future is None:
             return Err(BehaviorTreeException("Current running goal is unavailable"))
 
+        if self._feedback is not None:
+            with self._lock:
+                self.set_feedback_outputs(self._feedback.feedback)
+                self._feedback = None
+
         if self._running_goal_future.done():
             result = self._running_goal_future.result()
             if result is None:
@@ -211,11 +216,6 @@ class ActionBase(Leaf):
             self._internal_state = ActionStates.REQUEST_GOAL_CANCELLATION
             return Ok(BTNodeState.RUNNING)
 
-        if self._feedback is not None:
-            with self._lock:
-                self.set_feedback_outputs(self._feedback.feedback)
-                self._feedback = None
-
         return Ok(BTNodeState.RUNNING)
 
     def _do_tick_cancel_running_goal(
@@ -285,6 +285,9 @@ class ActionBase(Leaf):
                     return Err(e)
                 case Ok(g):
                     self._input_goal = g
+        with self._lock:
+            # This belongs to an earlier goal
+            self._feedback = None
         self._new_goal_request_future = self._action_client.send_goal_async(
             goal=self._input_goal, feedback_callback=self._feedback_cb
         )
-- 
2.43.0


From 4f17167b9739a80264fc297969533bea8b6198e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:26 +0000
Subject: [PATCH 58/78] fix: nodes whose set-up failed can be shut down

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py  | 4 +++-
 ros_bt_py/ros_bt_py/ros_nodes/service.py | 4 +++-
 ros_bt_py/ros_bt_py/ros_nodes/topic.py   | 3 +++
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index dde30d8..ac91521 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -36,6 +36,7 @@ from ros_bt_py.vendor.result import Result, Ok, Err
 from action_msgs.msg import GoalStatus
 from rclpy.action.client import ActionClient
 from rclpy.callback_groups import ReentrantCallbackGroup
+from rclpy.task import Future
 from rclpy.time import Time
 
 from ros_bt_py.data_types import (
@@ -89,7 +90,8 @@ class ActionBase(Leaf):
     _action_type: type
     _action_client: Optional[ActionClient] = None
     _feedback = None
-    _internal_state: ActionStates
+    _internal_state: ActionStates = ActionStates.IDLE
+    _new_goal_request_future: Optional[Future] = None
 
     # Returns the action goal message that should be send to the server.
     @abc.abstractmethod
diff --git a/ros_bt_py/ros_bt_py/ros_nodes/service.py b/ros_bt_py/ros_bt_py/ros_nodes/service.py
index 4198e9e..4fa34ab 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/service.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/service.py
@@ -366,6 +366,8 @@ class Service(ServiceBase):
 class WaitForService(Leaf):
     """Wait for a service to be available, fails if this wait times out."""
 
+    _service_client: Optional[Client] = None
+
     def _do_setup(self) -> Result[BTNodeState, BehaviorTreeException]:
         if not self.has_ros_node:
             self.logerr("No ROS node reference available!")
@@ -382,7 +384,7 @@ class WaitForService(Leaf):
             case Ok(f):
                 self._wait_for_service_seconds = f
 
-        self._service_client: Optional[Client] = None
+        self._service_client = None
         self._last_service_call_time: Optional[Time] = None
         return Ok(BTNodeState.IDLE)
 
diff --git a/ros_bt_py/ros_bt_py/ros_nodes/topic.py b/ros_bt_py/ros_bt_py/ros_nodes/topic.py
index 05d678e..8346905 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/topic.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/topic.py
@@ -30,6 +30,7 @@ from typing import Optional
 
 from ros_bt_py.vendor.result import Result, Ok, Err, do
 
+from rclpy.publisher import Publisher
 from rclpy.qos import (
     QoSDurabilityPolicy,
     QoSProfile,
@@ -464,6 +465,8 @@ class TopicMemorySubscriber(Leaf):
     )
 )
 class TopicPublisher(Leaf):
+    _publisher: Optional[Publisher] = None
+
     def _do_setup(self) -> Result[BTNodeState, BehaviorTreeException]:
         if not self.has_ros_node:
             error_msg = f"{self.name} does not have a refrence to a ROS node!"
-- 
2.43.0


From 4af7a2197b408b51ec56ef8e0c1fae6732fa7a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:44 +0000
Subject: [PATCH 59/78] fix: an action whose name changes before it is
 interrupted uses the new name

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index ac91521..31a09c5 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -92,6 +92,7 @@ class ActionBase(Leaf):
     _feedback = None
     _internal_state: ActionStates = ActionStates.IDLE
     _new_goal_request_future: Optional[Future] = None
+    _input_goal: Optional[Any] = None
 
     # Returns the action goal message that should be send to the server.
     @abc.abstractmethod
@@ -439,6 +440,10 @@ class ActionBase(Leaf):
                 lambda future: self._cancel_late_goal(client, future)
             )
             self._new_goal_request_future = None
+        elif self._input_goal is not None and self._action_client is not None:
+            # The inputs changed, the client may be for a previous action name
+            self._action_client.destroy()
+            self._action_client = None
 
         self._last_goal_time = None
         self._running_goal_future = None
-- 
2.43.0


From b6ac6b9d88fae6e953eb734212836729ce52f943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:12 +0000
Subject: [PATCH 60/78] fix: fields with messages of packages called like texts
 hold messages

---
 ros_bt_py/ros_bt_py/data_types.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index eb97b80..4cec545 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -1789,9 +1789,9 @@ def get_message_field_io_type(field_type: str) -> Result[DataContainer, str]:
     as given by the :obj:`get_fields_and_field_types()` function.
     """
     # Checks if the type matches a sequence definition and extracts the element-type and bounds
-    match_sequence = re.match(r"sequence<([\w\/<>]+)(?:, (\d+))?>", field_type)
+    match_sequence = re.fullmatch(r"sequence<([\w\/<>]+)(?:, (\d+))?>", field_type)
     # Checks if the type matches an array definition and extracts the element-type and bounds
-    match_array = re.match(r"([\w\/<>]*)\[(\d+)\]", field_type)
+    match_array = re.fullmatch(r"([\w\/<>]*)\[(\d+)\]", field_type)
     if match_sequence or match_array:
         if match_sequence:
             nested_type_str, max_len_str = match_sequence.groups()
@@ -1816,7 +1816,7 @@ def get_message_field_io_type(field_type: str) -> Result[DataContainer, str]:
             )
         )
 
-    match_string = re.match(r"w?string(?:<(\d+)>)?", field_type)
+    match_string = re.fullmatch(r"w?string(?:<(\d+)>)?", field_type)
     if match_string:
         max_len_str = match_string.group(1)
         if max_len_str is None:
-- 
2.43.0


From 44974135db3ad122ee9e13203bba53c305d387f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:12 +0000
Subject: [PATCH 61/78] fix: default values of fields are no constants of a
 message

---
 ros_bt_py/ros_bt_py/ros_helpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/ros_helpers.py b/ros_bt_py/ros_bt_py/ros_helpers.py
index 2f551ea..a04c35f 100644
--- a/ros_bt_py/ros_bt_py/ros_helpers.py
+++ b/ros_bt_py/ros_bt_py/ros_helpers.py
@@ -84,6 +84,8 @@ def get_message_constant_fields(message_class) -> Result[list[str], NodeConfigEr
             attr
             for attr in dir(message_class.__class__)
             if not attr.startswith("_")
+            # Default values of fields are kept in the same place
+            and not attr.endswith("__DEFAULT")
             and not callable(getattr(message_class.__class__, attr))
         ]
 
-- 
2.43.0


From ba3ba9f1d3682ccaf027fa78de9e9d76ed52014f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:06 +0000
Subject: [PATCH 62/78] fix: diagnostics carry the name of the tree

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 2 ++
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index fa91a12..ca577d5 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -277,6 +277,8 @@ class TreeEditManager(TreeExecManager):
     ) -> ChangeTreeName.Response:
         """Change the name of the currently loaded tree."""
         self.name = request.name
+        if self.publish_diagnostic is not None:
+            self.set_diagnostics_name()
 
         response.success = True
 
diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index ca8252f..7571d37 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -536,6 +536,7 @@ class TreeExecManager:
             case Ok(r_id):
                 root = self.nodes.get(r_id)
         if root is not None:
+            self.diagnostic_status.name = root.name
             self.get_logger().warn(
                 "No tree name was found. Diagnostics data from the behavior tree will be"
                 f"published under the name of the root_node: {self.diagnostic_status.name}",
@@ -987,7 +988,7 @@ class TreeExecManager:
 
         response.success = True
         self.get_logger().info("Successfully loaded tree")
-        if self.publish_diagnostic is None:
+        if self.publish_diagnostic is not None:
             self.set_diagnostics_name()
         return response
 
-- 
2.43.0


From 20f07ce4f5cec3aeadc2ac299865da1e94aef7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:21 +0000
Subject: [PATCH 63/78] fix: a shutdown that discards links publishes the new
 structure

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 7571d37..aa54362 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -1043,6 +1043,7 @@ class TreeExecManager:
                 node.parent = None
                 node.children = []
             self.state = TreeState.EDITABLE
+            self.publish_structure()
             response.tree_state = self.state
             response.success = True
             return response
-- 
2.43.0


From 08f3c8b4b317dfcbdd4d2ad9864a952e602c1a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:30 +0000
Subject: [PATCH 64/78] fix: node diagnostics before a call tell which call it
 is

---
 ros_bt_py/ros_bt_py/debug_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ros_bt_py/ros_bt_py/debug_manager.py b/ros_bt_py/ros_bt_py/debug_manager.py
index 77cde21..9cca4a7 100644
--- a/ros_bt_py/ros_bt_py/debug_manager.py
+++ b/ros_bt_py/ros_bt_py/debug_manager.py
@@ -118,6 +118,7 @@ class DebugManager(object):
                 "stamp": self._ros_node.get_clock().now(),
                 "module": type(node_instance).__module__,
                 "node_class": type(node_instance).__name__,
+                "state": self.diagnostics_state[state][0],
                 "path": [],
             }
 
-- 
2.43.0


From cbee2181d72268541a252b3ebb37d3eb35464842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:30 +0000
Subject: [PATCH 65/78] fix: enabling node diagnostics during a tick no longer
 breaks the tree

---
 ros_bt_py/ros_bt_py/debug_manager.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/debug_manager.py b/ros_bt_py/ros_bt_py/debug_manager.py
index 9cca4a7..f28dfd4 100644
--- a/ros_bt_py/ros_bt_py/debug_manager.py
+++ b/ros_bt_py/ros_bt_py/debug_manager.py
@@ -135,7 +135,8 @@ class DebugManager(object):
         # Contextmanager'ed code is executed here
         yield
 
-        if self._collect_node_diagnostics:
+        # Collecting may have been enabled in the meantime
+        if self._collect_node_diagnostics and diagnostics:
             diagnostics["state"] = self.diagnostics_state[state][1]
             diagnostics["stamp"] = self._ros_node.get_clock().now()
             if self.publish_node_diagnostics:
@@ -181,7 +182,8 @@ class DebugManager(object):
         # Contextmanager'ed code is executed here
         yield
 
-        if self._collect_node_diagnostics:
+        # Collecting may have been enabled in the meantime
+        if self._collect_node_diagnostics and diagnostics:
             diagnostics["state"] = "POST_TICK"
             diagnostics["stamp"] = self._ros_node.get_clock().now()
 
-- 
2.43.0


From 8f648b47b71614ea649eb12c9bb0bebb6284055e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:30 +0000
Subject: [PATCH 66/78] fix: log messages are not printed with the whole stack

---
 ros_bt_py/ros_bt_py/logging_manager.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/logging_manager.py b/ros_bt_py/ros_bt_py/logging_manager.py
index b13b065..bc65bec 100644
--- a/ros_bt_py/ros_bt_py/logging_manager.py
+++ b/ros_bt_py/ros_bt_py/logging_manager.py
@@ -126,7 +126,6 @@ class LoggingManager:
             log_message.node_id = uuid_to_ros(node_id)
 
         stack = inspect.stack()
-        print(stack)
         if stacklevel < 0 or stacklevel >= len(stack):
             frame = stack[-1]
         else:
@@ -135,7 +134,6 @@ class LoggingManager:
         log_message.file = os.path.abspath(frame.filename)
         log_message.function = frame.function
         log_message.line = frame.lineno
-        print(log_message)
 
         if self.publish_log_callback is not None:
             self.publish_log_callback(log_message)
-- 
2.43.0


From 8734582e73c9248c2be020b89b5b8e0c806ac416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:28 +0000
Subject: [PATCH 67/78] fix: files that can't be read as YAML are a failure of
 the node that reads them

Packages that are not found, names with null characters, files that aren't
text and invalid numbers or dates raised out of the tick of YamlList and
YamlDict instead of being reported as load_error_msg.
---
 ros_bt_py/ros_bt_py/nodes/file.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/file.py b/ros_bt_py/ros_bt_py/nodes/file.py
index 6c1ecf4..043b3e8 100644
--- a/ros_bt_py/ros_bt_py/nodes/file.py
+++ b/ros_bt_py/ros_bt_py/nodes/file.py
@@ -62,9 +62,12 @@ def load_file(path):
         file_path = path[len("file://") :]
     elif path.startswith("package://"):
         package_name = path[len("package://") :].split("/", 1)[0]
-        package_path = ament_index_python.get_package_share_directory(
-            package_name=package_name
-        )
+        try:
+            package_path = ament_index_python.get_package_share_directory(
+                package_name=package_name
+            )
+        except (ament_index_python.PackageNotFoundError, ValueError) as ex:
+            raise LoadFileError(f"Error looking for package {package_name}: {str(ex)}")
         file_path = package_path + path[len("package://") + len(package_name) :]
     else:
         raise LoadFileError(
@@ -73,13 +76,15 @@ def load_file(path):
         )
     try:
         data_file = open(file_path, "r")
-    except IOError as ex:
+    except (IOError, ValueError) as ex:
         error_msg = f"Error opening file {file_path}: {str(ex)}"
         raise LoadFileError(error_msg)
     with data_file:
         try:
             data = yaml.safe_load(data_file)
-        except yaml.YAMLError as ex:
+        except Exception as ex:
+            # Besides its own errors, yaml passes on those of the conversions to
+            # numbers and dates, and reading fails for files that aren't text
             raise LoadFileError(f"Yaml error in file {file_path}: {str(ex)}")
     return data
 
-- 
2.43.0


From 76a13a2a0209a2bc9ca99961fbc26aade3fd99bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:42 +0000
Subject: [PATCH 68/78] fix: invalid dates in a tree file raised out of the
 service that loads it

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index aa54362..f46cc6d 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -255,7 +255,9 @@ def load_tree_from_file(
             try:
                 tree_yaml = tree_file.read()
                 response = parse_tree_yaml(tree_yaml=tree_yaml)
-            except (yaml.YAMLError, ValueError, TypeError, RecursionError) as ex:
+            except Exception as ex:
+                # Besides its own errors, yaml passes on those of the conversions
+                # to numbers and dates
                 response.success = False
                 response.error_message = (
                     f"Encountered an error while parsing the tree yaml: {str(ex)}"
-- 
2.43.0


From c667944d02b656d571ef6e3bd1a07979b2ebfd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:42 +0000
Subject: [PATCH 69/78] fix: one file that can't be read or is no tree no
 longer ends the migration of all

---
 ros_bt_py/ros_bt_py/migrate_tree_files.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/migrate_tree_files.py b/ros_bt_py/ros_bt_py/migrate_tree_files.py
index e2027fb..838fdff 100644
--- a/ros_bt_py/ros_bt_py/migrate_tree_files.py
+++ b/ros_bt_py/ros_bt_py/migrate_tree_files.py
@@ -69,8 +69,15 @@ def main():
                 new_file = f"{name}_new_{counter}{ext}"
                 counter += 1
 
-        with open(file, "r") as f:
-            tree_dict = yaml.safe_load(f.read())
+        try:
+            with open(file, "r") as f:
+                tree_dict = yaml.safe_load(f.read())
+        except Exception as ex:
+            print(f"Failed to read: {ex}")
+            continue
+        if not isinstance(tree_dict, dict):
+            print("Failed to migrate: Not a tree file")
+            continue
 
         match migrate_legacy_tree_structure(tree_dict):
             case Err(e):
-- 
2.43.0


From 2e4bb58a115ccf42245a3b979d615547b7ff6e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:39 +0000
Subject: [PATCH 70/78] fix: asking for a package with a name no package can
 have raised out of the service

---
 ros_bt_py/ros_bt_py/package_manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/package_manager.py b/ros_bt_py/ros_bt_py/package_manager.py
index 47242d2..cd21a44 100644
--- a/ros_bt_py/ros_bt_py/package_manager.py
+++ b/ros_bt_py/ros_bt_py/package_manager.py
@@ -340,7 +340,8 @@ class PackageManager(object):
 
             response.success = True
             response.package_structure = json.dumps(package_structure)
-        except PackageNotFoundError:
+        except (PackageNotFoundError, ValueError):
+            # A ValueError means that no package can have that name
             response.success = False
             response.error_message = f'Package "{request.package}" does not exist'
 
-- 
2.43.0


From dac739c2a41f9a029f40b8800c84a75d1874d4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:01 +0000
Subject: [PATCH 71/78] fix: unwiring one wiring twice in one request raised
 halfway through

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index ca577d5..a49c9bc 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -1043,8 +1043,9 @@ class TreeEditManager(TreeExecManager):
         :returns: :class:`ros_bt_py_msgs.src.WireNodeDataResponse` or `None`
         """
         successful_unwirings = []
+        remaining_wirings = list(self.wirings)
         for wiring in request.wirings:
-            if wiring not in self.wirings:
+            if wiring not in remaining_wirings:
                 if request.ignore_failure:
                     continue
                 response.success = False
@@ -1052,6 +1053,7 @@ class TreeEditManager(TreeExecManager):
                     f'Failed to remove wiring "{wiring}": This wiring does not exist'
                 )
                 return response
+            remaining_wirings.remove(wiring)
             successful_unwirings.append(wiring)
 
         for wiring in successful_unwirings:
-- 
2.43.0


From 0098ac2f2523cb120069d352e68727d8d1c0d06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:54 +0000
Subject: [PATCH 72/78] fix: comparing nodes raised or never ended, and equal
 nodes were not equal

---
 ros_bt_py/ros_bt_py/node.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/node.py b/ros_bt_py/ros_bt_py/node.py
index 807c6bc..c2e1f5b 100644
--- a/ros_bt_py/ros_bt_py/node.py
+++ b/ros_bt_py/ros_bt_py/node.py
@@ -856,15 +856,19 @@ class Node(abc.ABC):
     @typechecked
     def __eq__(self, other: Any) -> bool:
         """Check if all attributes of a node are equal."""
+        if not isinstance(other, Node):
+            return False
+        # The parents are not compared themselves, since that would lead back
+        # to their children. Inputs and outputs are those of the node config.
         return (
             self.node_id == other.node_id
             and self.name == other.name
-            and self.parent == other.parent
+            and (self.parent and self.parent.node_id)
+            == (other.parent and other.parent.node_id)
             and self.state == other.state
             and type(self).__module__ == type(other).__module__
             and type(self).__name__ == type(other).__name__
-            and self.inputs == other.inputs
-            and self.outputs == other.outputs
+            and self.node_config == other.node_config
             and self.children == other.children
         )
 
-- 
2.43.0


From ef5ff3fe0928cb7dec519894b754a928fb511f92 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:20:52 +0000
Subject: [PATCH 73/78] fix: subtrees of refused and of morphed nodes were
 published

---
 ros_bt_py/ros_bt_py/ros_nodes/subtree.py | 21 +++++++++++++--------
 ros_bt_py/ros_bt_py/tree_edit_manager.py |  5 +++++
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/subtree.py b/ros_bt_py/ros_bt_py/ros_nodes/subtree.py
index b22efdd..79f0b79 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/subtree.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/subtree.py
@@ -83,6 +83,19 @@ class Subtree(Leaf):
     manager: TreeExecManager
     is_set_up = False
 
+    def __init__(self, *args, **kwargs) -> None:
+        super().__init__(*args, **kwargs)
+
+        # Only now this can't fail any more. A node that is refused is not part of
+        # the tree, and the one it was to be put in place of has the same id.
+        if self.subtree_manager:
+            self.subtree_manager.add_subtree_structure(
+                self.node_id, self.manager.structure_to_msg()
+            )
+            self.subtree_manager.add_nested_manager(
+                self.node_id, self.nested_subtree_manager
+            )
+
     def setup_node(self) -> Result[None, NodeConfigError]:
         if not self.has_ros_node:
             raise BehaviorTreeException(
@@ -126,14 +139,6 @@ class Subtree(Leaf):
             case Ok(None):
                 pass
 
-        if self.subtree_manager:
-            self.subtree_manager.add_subtree_structure(
-                self.node_id, self.manager.structure_to_msg()
-            )
-            self.subtree_manager.add_nested_manager(
-                self.node_id, self.nested_subtree_manager
-            )
-
         return Ok(None)
 
     def load_subtree(self) -> Result[None, NodeConfigError]:
diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index a49c9bc..47f6e12 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -416,8 +416,13 @@ class TreeEditManager(TreeExecManager):
                 f"{len(old_node.children)} children, {new_node.name} "
                 f"supports {new_node.node_config.max_children}."
             )
+            # A subtree has no children, so the old node isn't one
+            self.subtree_manager.remove_subtree(node_id)
             return response
 
+        if new_node.tree_ref is None:
+            self.subtree_manager.remove_subtree(node_id)
+
         # First unwire all data connection to the existing node
         wire_request = WireNodeData.Request(
             wirings=[
-- 
2.43.0


From 71044ca2dbdf53d4efabedba86911f781b5f9873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:08 +0000
Subject: [PATCH 74/78] fix: setting the options of a node refused new values
 that change its inputs

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 47f6e12..fc88ea4 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -557,9 +557,14 @@ class TreeEditManager(TreeExecManager):
         # First, we need to add the option values that didn't change
         # to our dict:
         new_inputs = {io.key: io for io in request.inputs}
+        extra_inputs = {}
         for key, container in node.node_config.inputs.items():
             if key in new_inputs.keys():
                 continue
+            if key not in node._node_config.inputs:
+                # This may not exist any more with the new options
+                extra_inputs[key] = container
+                continue
             new_inputs[key] = NodeIO(
                 key=key,
                 type=container.serialize_type(),
@@ -582,6 +587,15 @@ class TreeEditManager(TreeExecManager):
             case Ok(n):
                 new_node = n
 
+        for key, container in extra_inputs.items():
+            new_container = new_node.node_config.inputs.get(key)
+            if (
+                new_container is not None
+                and new_container.is_compatible(container)
+                and container.is_compatible(new_container)
+            ):
+                new_node.node_config.inputs[key] = container
+
         # Use this request to unwire any data connections the existing
         # node has - if we didn't do this, the node wouldn't ever be
         # garbage collected, among other problems.
-- 
2.43.0


From 0e10cde92484898cb257fe6263a30691b7922893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:13 +0000
Subject: [PATCH 75/78] fix: a stop that coincides with the end of a tick left
 the tree stopping or waiting for ever

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 26 ++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index f46cc6d..c0713ff 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -486,6 +486,18 @@ class TreeExecManager:
                 f"Updating tree state to {self._tree_state.state}"
             )
 
+    def _change_state(self, old_state: str, new_state: str) -> bool:
+        """
+        Set a new state, but only if the current one is still `old_state`.
+
+        The tick thread and service calls change the state concurrently.
+        """
+        with self._tree_lock:
+            if self._tree_state.state != old_state:
+                return False
+            self._tree_state.state = new_state
+            return True
+
     @property
     @typechecked
     def tick_frequency_hz(self) -> float:
@@ -769,7 +781,11 @@ class TreeExecManager:
             if self._once:
                 # Return immediately, not unticking anything
                 self._once = False
-                self.state = TreeState.WAITING_FOR_TICK
+                if not self._change_state(
+                    TreeState.TICKING, TreeState.WAITING_FOR_TICK
+                ):
+                    # A stop was requested during the tick
+                    continue
                 self.publish_state()
                 return Ok(None)
 
@@ -1308,8 +1324,14 @@ class TreeExecManager:
             ControlTreeExecution.Request.STOP,
             ControlTreeExecution.Request.SHUTDOWN,
         ]:
+            if tree_state == TreeState.TICKING and not self._change_state(
+                TreeState.TICKING, TreeState.STOP_REQUESTED
+            ):
+                # The tick has ended in the meantime
+                if self.state == TreeState.WAITING_FOR_TICK:
+                    tree_state = TreeState.WAITING_FOR_TICK
+
             if tree_state == TreeState.TICKING:
-                self.state = TreeState.STOP_REQUESTED
                 # Four times the allowed period should be plenty of time to
                 # finish the current tick, if the tree has not stopped by then
                 # we're in deep trouble.
-- 
2.43.0


From 60fd4f1682e4c474d600b76fb5cb5f574bbadbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:37 +0000
Subject: [PATCH 76/78] fix: two commands that started ticking while an edit
 was in progress raised RuntimeError

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index c0713ff..faec71e 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -1081,6 +1081,15 @@ class TreeExecManager:
         response.success = True
         return response
 
+    def _renew_tick_thread(self) -> bool:
+        """Prepare a thread to start, unless another command has started one already."""
+        if self.state in (TreeState.TICKING, TreeState.STOP_REQUESTED) or (
+            self._tick_thread and self._tick_thread.is_alive()
+        ):
+            return False
+        self._tick_thread = Thread(target=self.tick_report_exceptions)
+        return True
+
     @typechecked
     def _control_execution_tick_once(
         self,
@@ -1100,6 +1109,13 @@ class TreeExecManager:
                 self._tick_thread = Thread(target=self.tick_report_exceptions)
             # No edit may be in progress when ticking starts
             with self._edit_lock:
+                if not self._renew_tick_thread():
+                    response.success = False
+                    response.error_message = (
+                        "Another command has started ticking, aborting"
+                    )
+                    response.tree_state = self.state
+                    return response
                 find_root_result = self.find_root()
                 if find_root_result.is_err():
                     response.success = False
@@ -1175,6 +1191,13 @@ class TreeExecManager:
 
             # No edit may be in progress when ticking starts
             with self._edit_lock:
+                if not self._renew_tick_thread():
+                    response.success = False
+                    response.error_message = (
+                        "Another command has started ticking, aborting"
+                    )
+                    response.tree_state = self.state
+                    return response
                 find_root_result = self.find_root()
                 if find_root_result.is_err():
                     response.success = False
-- 
2.43.0


From f5c7ace63ba7a02519ef400b4e44f33d34e168a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:50 +0000
Subject: [PATCH 77/78] fix: a command that came in as a single tick ended made
 the latter raise RuntimeError

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index faec71e..dfa6443 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -1135,15 +1135,17 @@ class TreeExecManager:
                 self._stop_after_result = False
                 self.state = TreeState.TICKING
 
-            self._tick_thread.start()
+            # Other commands may replace it once it has ended
+            tick_thread = self._tick_thread
+            tick_thread.start()
             # Give the tick thread some time to finish
-            self._tick_thread.join((1.0 / self.tick_frequency_hz) * 4.0)
+            tick_thread.join((1.0 / self.tick_frequency_hz) * 4.0)
             # If we're debugging or setting up (and ROS is not
             # shutting down), keep sleepin until the thread
             # finishes
-            while self._tick_thread.is_alive() and ok():
-                self._tick_thread.join((1.0 / self.tick_frequency_hz) * 4.0)
-            if self._tick_thread.is_alive():
+            while tick_thread.is_alive() and ok():
+                tick_thread.join((1.0 / self.tick_frequency_hz) * 4.0)
+            if tick_thread.is_alive():
                 response.success = False
                 response.error_message = (
                     "Tried to join tick thread after single tick, but failed!"
@@ -1299,9 +1301,9 @@ class TreeExecManager:
                     self.publish_state()
                     return response
 
-        # Make a new tick thread if there isn't one or the old one has been
-        # successfully joined.
-        if self._tick_thread is None or not self._tick_thread.is_alive():
+        # Make a tick thread if there isn't one. An old one is not replaced before
+        # ticking starts again, since another command may be joining it.
+        if self._tick_thread is None:
             self._tick_thread = Thread(target=self.tick_report_exceptions)
 
         tree_state = self.state
-- 
2.43.0


From a5ce9e542d70abec37bb0fe9de5307ee2b1ad195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:09 +0000
Subject: [PATCH 78/78] fix: a stop waited for the ticks of the next start if
 that came in as the tree stopped

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index dfa6443..b4996e6 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -1360,16 +1360,18 @@ class TreeExecManager:
                 # Four times the allowed period should be plenty of time to
                 # finish the current tick, if the tree has not stopped by then
                 # we're in deep trouble.
-                if self._tick_thread.is_alive():
+                # Other commands may replace it once it has ended
+                tick_thread = self._tick_thread
+                if tick_thread.is_alive():
                     # Give the tick thread some time to finish
-                    self._tick_thread.join((1.0 / self.tick_frequency_hz) * 4.0)
+                    tick_thread.join((1.0 / self.tick_frequency_hz) * 4.0)
 
                     # If we're debugging or setting up (and ROS is not
                     # shutting down), keep sleeping until the thread
                     # finishes
-                    while self._tick_thread.is_alive() and ok():
-                        self._tick_thread.join((1.0 / self.tick_frequency_hz) * 4.0)
-                    if self._tick_thread.is_alive():
+                    while tick_thread.is_alive() and ok():
+                        tick_thread.join((1.0 / self.tick_frequency_hz) * 4.0)
+                    if tick_thread.is_alive():
                         response.success = False
                         response.error_message = (
                             "Tried to join tick thread after requesting "
-- 
2.43.0

