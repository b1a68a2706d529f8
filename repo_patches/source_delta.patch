From f34bf1e3bba5a143cdbb6d8b07228fadb46cfd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:38 +0000
Subject: [PATCH 01/29] fix: 'node in graph' raised TypeError for a node of the
 graph

---
 abstract/_BasicGraph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 040afaa..7a8cb10 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -190,6 +190,8 @@ class BasicGraph:
 		Returns:
 			bool: True if the item is in the graph, False otherwise.
 		"""
+		if isinstance(item, Node):
+			return item.id in self._nodes_dict and self._nodes_dict[item.id] is item
 		return item in self._nodes_dict
 
 	@property
-- 
2.43.0


From b473b4aea24b4535ccf0c1b9eecfdc68a5f5598f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:38 +0000
Subject: [PATCH 02/29] fix: add_node with a Node returned None or left the
 node without a graph

---
 abstract/_BasicGraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 7a8cb10..b117afd 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -308,7 +308,7 @@ class BasicGraph:
 			if node.id in self.nodes_dict:
 				# if the node is already in the graph and node.graph is self then do nothing
 				if node.graph is self and self.nodes_dict[node.id] is node:
-					pass
+					return node
 				else:
 					raise ValueError(f'node with id "{node.id}" is already in a graph!')
 			else:
@@ -317,6 +317,7 @@ class BasicGraph:
 						raise ValueError(f'node with id "{node.id}" is already in a graph but not in the graph dictionary: {self.nodes_dict.keys()}')
 					else:
 						raise ValueError(f'node with id "{node.id}" is already in a graph!')
+				node._graph = self
 				self.nodes_dict[node.id] = node
 				return node
 		else:
-- 
2.43.0


From c6db3796efc7039ea93d2a93c9dfdb2d0543e47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:39 +0000
Subject: [PATCH 03/29] fix: different edges with the same extra id were
 neither equal nor unequal

---
 abstract/_GraphObj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/_GraphObj.py b/abstract/_GraphObj.py
index 31a9672..f488619 100755
--- a/abstract/_GraphObj.py
+++ b/abstract/_GraphObj.py
@@ -138,7 +138,7 @@ class GraphObj:
 			raise TypeError(f'"{other}" is of type: {type(other)}')
 		if self.graph != other.graph:
 			raise ValueError('two GraphObj from different graphs cannot be compared')
-		return self.raw_id != other.raw_id
+		return self.id != other.id
 
 	def is_similar_to(self, other):
 		"""
-- 
2.43.0


From dbaaa3e0409a98c9b48f8c922592fa7dc5c10f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:38 +0000
Subject: [PATCH 04/29] fix: quotes and backslashes in names, labels and
 tooltips broke the Graphviz source

---
 abstract/Edge.py                 |  8 ++++----
 abstract/Node.py                 | 10 +++++-----
 abstract/_GraphObj.py            | 11 +++++++++++
 abstract/_GraphWithoutDisplay.py |  9 +++++----
 4 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/abstract/Edge.py b/abstract/Edge.py
index 8761318..a242852 100755
--- a/abstract/Edge.py
+++ b/abstract/Edge.py
@@ -1,4 +1,4 @@
-from ._GraphObj import GraphObj
+from ._GraphObj import GraphObj, escape_text
 from .styling.EdgeStyle import EdgeStyle
 from .Node import Node
 from typing import Optional, Union, Dict, Tuple
@@ -144,9 +144,9 @@ class Edge(GraphObj):
 		label_or_value = self.display_label_or_value()
 		style = self.style
 		if label_or_value is not None:
-			parts.append(f'label="{label_or_value}"')
+			parts.append(f'label="{escape_text(label_or_value)}"')
 		if self._tooltip is not None:
-			parts.append(f'tooltip="{self._tooltip}"')
+			parts.append(f'tooltip="{escape_text(self._tooltip)}"')
 		if style is not None:
 			parts.append(style.get_graphviz_str())
 
@@ -155,7 +155,7 @@ class Edge(GraphObj):
 		else:
 			second_part = ''
 
-		return f'"{self.start.name}" -> "{self.end.name}"' + second_part
+		return f'"{escape_text(self.start.name)}" -> "{escape_text(self.end.name)}"' + second_part
 
 	@property
 	def start(self) -> Node:
diff --git a/abstract/Node.py b/abstract/Node.py
index 63f52f1..1f203f9 100755
--- a/abstract/Node.py
+++ b/abstract/Node.py
@@ -1,4 +1,4 @@
-from ._GraphObj import GraphObj
+from ._GraphObj import GraphObj, escape_text
 from .styling.NodeStyle import NodeStyle
 from typing import Optional, Union, List, Dict
 
@@ -224,7 +224,7 @@ class Node(GraphObj):
 			result = str(self._label)
 		else:
 			result = str(self.id)
-		return result.replace('"', '\\"')
+		return result
 
 	@label.setter
 	def label(self, label: str):
@@ -318,16 +318,16 @@ class Node(GraphObj):
 			str: The Graphviz representation.
 		"""
 
-		parts = [f'label="{self.display_label()}"']
+		parts = [f'label="{escape_text(self.display_label())}"']
 
 		if self._tooltip is not None:
-			parts.append(f'tooltip="{self._tooltip}"')
+			parts.append(f'tooltip="{escape_text(self._tooltip)}"')
 
 		style = self.style
 		if style is not None:
 			parts.append(style.get_graphviz_str())
 
-		return f'"{self.id}" [' + ' '.join(parts) + ']'
+		return f'"{escape_text(self.id)}" [' + ' '.join(parts) + ']'
 
 	def connect_to(self, node: 'Node', **kwargs) -> 'GraphObj':
 		"""
diff --git a/abstract/_GraphObj.py b/abstract/_GraphObj.py
index f488619..895d0c9 100755
--- a/abstract/_GraphObj.py
+++ b/abstract/_GraphObj.py
@@ -1,4 +1,5 @@
 import hashlib
+import re
 import base32hex
 
 
@@ -8,6 +9,16 @@ def make_hash_sha256(obj):
 	return base32hex.b32encode(hasher.digest()).replace('=', '-')
 
 
+def escape_text(text):
+	"""
+	Escapes a text for use between double quotes in the DOT language.
+	Backslash sequences inside the text keep their meaning in Graphviz.
+	"""
+	# a backslash before the closing quote, a quote, or a line break would change where the text ends
+	text = re.sub(r'(\\+)(?=["\r\n]|\Z)', r'\1\1', str(text))
+	return text.replace('"', '\\"')
+
+
 class GraphObj:
 	def __init__(self, graph, id, value=None, label=None, tooltip=None, style=None, **kwargs):
 		self._graph = graph
diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 32f52b2..a6b494c 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -9,6 +9,7 @@ from colouration import Colour
 from .styling import stylize_with_pensieve, stylize_randomly
 from typing import Optional, Union, Dict, Callable
 from .Node import Node
+from ._GraphObj import escape_text
 from .Edge import Edge
 
 DEFAULT_BACKGROUND_COLOUR_NAME = '#FAFAFA'
@@ -325,7 +326,7 @@ class GraphWithoutDisplay(BasicGraph):
 					else:
 						attributes['label'] = f'<\n{html}>'
 				else:
-					attributes['label'] = f'"{self._label}"'
+					attributes['label'] = f'"{escape_text(self._label)}"'
 
 			if self._label_location is not None:
 				attributes['labelloc'] = f'"{self._label_location[0]}"'
@@ -336,11 +337,11 @@ class GraphWithoutDisplay(BasicGraph):
 			if self._label_colour is not None:
 				attributes['fontcolor'] = f'"{self._label_colour}"'
 			if self._label_url is not None:
-				attributes['href'] = f'"{self._label_url}"'
+				attributes['href'] = f'"{escape_text(self._label_url)}"'
 				attributes['target'] = '"_blank"'
 
 		if self._tooltip is not None:
-			attributes['tooltip'] = f'"{self._tooltip}"'
+			attributes['tooltip'] = f'"{escape_text(self._tooltip)}"'
 
 		#if dpi is not None:
 		#	attributes['dpi'] = f'{dpi}'
@@ -348,7 +349,7 @@ class GraphWithoutDisplay(BasicGraph):
 			if isinstance(value, int):
 				attributes[key] = value
 			else:
-				attributes[key] = f'"{value}"'
+				attributes[key] = f'"{escape_text(value)}"'
 
 		if len(attributes) > 0:
 			second_part += '\t graph [' + ', '.join([f'{key} = {value}' for key, value in attributes.items()]) + ' ];\n'
-- 
2.43.0


From b1e7523d97169df83debad20334ecddb3cc81db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:52 +0000
Subject: [PATCH 05/29] fix: ancestor and descendant distances were not
 shortest paths and deep or dense graphs exhausted the stack or time

---
 abstract/_BasicGraph.py | 104 ++++++++++++++++++----------------------
 1 file changed, 47 insertions(+), 57 deletions(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index b117afd..d454336 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -502,34 +502,53 @@ class BasicGraph:
 		"""
 		return [node for node in self.nodes if not node.has_children()]
 
-	def _get_ancestors(self, node, nodes_travelled=None):
+	def _get_relatives(self, node, get_neighbours):
 		"""
+		nodes that can be reached from a node, in the order in which a depth-first search finds them
 		:type node: Node or str
-		:type nodes_travelled: list[Node] or None
+		:type get_neighbours: callable
 		:rtype: list[Node]
 		"""
 		node = self.get_node(node)
-		nodes_travelled = nodes_travelled or []
-		nodes_travelled.append(node)
-		parents = self.get_parents(node=node)
-		if len(parents) == 0:
-			return [], {}
-		else:
-			ancestors = []
-			ancestors_dict = {1: []}
-			for parent in parents:
-				if parent not in ancestors:
-					ancestors.append(parent)
-					ancestors_dict[1].append(parent)
-
-				if parent not in nodes_travelled:
-					parent_ancestors, parent_ancestors_dict = self._get_ancestors(node=parent, nodes_travelled=nodes_travelled)
-					for ancestor in parent_ancestors:
-						if ancestor not in ancestors:
-							ancestors.append(ancestor)
-							for distance in parent_ancestors_dict.keys():
-								ancestors_dict[distance+1] = parent_ancestors_dict[distance]
-			return ancestors, ancestors_dict
+		relatives = {}
+		nodes_travelled = {node.id}
+		stack = [iter(get_neighbours(node=node))]
+		while stack:
+			for neighbour in stack[-1]:
+				relatives.setdefault(neighbour.id, neighbour)
+				if neighbour.id not in nodes_travelled:
+					nodes_travelled.add(neighbour.id)
+					stack.append(iter(get_neighbours(node=neighbour)))
+					break
+			else:
+				stack.pop()
+		return list(relatives.values())
+
+	def _get_relatives_by_distance(self, node, get_neighbours, include_self):
+		"""
+		nodes that can be reached from a node, by the number of edges on a shortest path
+		:type node: Node or str
+		:type get_neighbours: callable
+		:type include_self: bool
+		:rtype: dict[int,list[Node]]
+		"""
+		node = self.get_node(node)
+		relatives = {}
+		nodes_found = set() if include_self else {node.id}
+		nodes_at_distance = [node]
+		distance = 0
+		while nodes_at_distance:
+			next_nodes = []
+			for node in nodes_at_distance:
+				for neighbour in get_neighbours(node=node):
+					if neighbour.id not in nodes_found:
+						nodes_found.add(neighbour.id)
+						next_nodes.append(neighbour)
+			distance += 1
+			if next_nodes:
+				relatives[distance] = next_nodes
+			nodes_at_distance = next_nodes
+		return relatives
 
 	def get_ancestors(self, node, distance=True):
 		"""
@@ -537,11 +556,10 @@ class BasicGraph:
 		:param bool distance: if True, ancestors and their respective distance to the node will be returned as dict
 		:rtype: dict[int,list[Node]] or list[Node]
 		"""
-		ancestors, ancestors_dict = self._get_ancestors(node=node, nodes_travelled=None)
 		if distance:
-			return ancestors_dict
+			return self._get_relatives_by_distance(node=node, get_neighbours=self.get_parents, include_self=True)
 		else:
-			return ancestors
+			return self._get_relatives(node=node, get_neighbours=self.get_parents)
 
 	def is_node_in_loop(self, node):
 		node = self.get_node(node)
@@ -561,45 +579,17 @@ class BasicGraph:
 		"""
 		return [node for node in self.nodes if node.is_in_loop()]
 
-	def _get_descendants(self, node, nodes_travelled=None):
-		"""
-		:type node: Node or str
-		:type nodes_travelled: list[Node] or None
-		:rtype: list[Node]
-		"""
-		node = self.get_node(node)
-		nodes_travelled = nodes_travelled or []
-		nodes_travelled.append(node)
-		children = self.get_children(node=node)
-		if len(children) == 0:
-			return [], {}
-		else:
-			descendants = []
-			descendants_dict = {1: []}
-			for child in children:
-				if child not in nodes_travelled:
-					if child not in descendants:
-						descendants.append(child)
-						descendants_dict[1].append(child)
-					child_descendants, child_descendants_dict = self._get_descendants(node=child, nodes_travelled=nodes_travelled)
-					for descendant in child_descendants:
-						if descendant not in descendants:
-							descendants.append(descendant)
-							for distance in child_descendants_dict.keys():
-								descendants_dict[distance+1] = child_descendants_dict[distance]
-			return descendants, descendants_dict
-
 	def get_descendants(self, node, distance=True):
 		"""
 		:param Node or str node:
 		:param bool distance: if True, descendants and their respective distance to the node will be returned as dict
 		:rtype: dict[int,list[Node]] or list[Node]
 		"""
-		descendants, descendants_dict = self._get_descendants(node=node, nodes_travelled=None)
 		if distance:
-			return descendants_dict
+			return self._get_relatives_by_distance(node=node, get_neighbours=self.get_children, include_self=False)
 		else:
-			return descendants
+			node = self.get_node(node)
+			return [x for x in self._get_relatives(node=node, get_neighbours=self.get_children) if x != node]
 
 	def get_siblings(self, node):
 		"""
-- 
2.43.0


From 09185d7832f0805eea688511a23fb1db42902aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:50 +0000
Subject: [PATCH 06/29] fix: traversal of objects reported wrong distances,
 missed objects within the limit and exhausted the stack

---
 abstract/get_ancestors.py   | 51 +++++++++++++++----------------------
 abstract/get_descendants.py | 51 +++++++++++++++----------------------
 2 files changed, 42 insertions(+), 60 deletions(-)

diff --git a/abstract/get_ancestors.py b/abstract/get_ancestors.py
index 6f554b4..b33dbd3 100755
--- a/abstract/get_ancestors.py
+++ b/abstract/get_ancestors.py
@@ -1,44 +1,35 @@
 from typing import List, Dict, Optional, Tuple, Union
 
-def _get_ancestors(obj, _objects_travelled: Optional[List] = None, max_height: Optional[int] = None) -> Tuple[List, Dict]:
+def _get_ancestors(obj, max_height: Optional[int] = None) -> Tuple[List, Dict]:
 	"""
 	Retrieves the ancestors of an object.
 
 	Args:
 		obj: The object to retrieve ancestors from.
-		_objects_travelled (Optional[List]): List of objects already travelled.
 		max_height (Optional[int]): Maximum height for travelling through objects' parents.
 
 	Returns:
 		Tuple[List, Dict]: A tuple containing a list of ancestors and a dictionary of ancestors with their distances.
 	"""
-	if max_height is not None:
-		if max_height <= 0:
-			return [], {}
-		else:
-			max_height -= 1
-	_objects_travelled = _objects_travelled or []
-	_objects_travelled.append(obj)
-	parents = obj.__parents__()
-	if len(parents) == 0:
-		return [], {}
-	else:
-		ancestors = []
-		ancestors_dict = {1: []}
-		for parent in parents:
-			if parent not in _objects_travelled:
-				if parent not in ancestors:
-					ancestors.append(parent)
-					ancestors_dict[1].append(parent)
-				parent_ancestors, parent_ancestors_dict = _get_ancestors(
-					obj=parent, _objects_travelled=_objects_travelled, max_height=max_height
-				)
-				for ancestor in parent_ancestors:
-					if ancestor not in ancestors:
-						ancestors.append(ancestor)
-						for distance in parent_ancestors_dict.keys():
-							ancestors_dict[distance + 1] = parent_ancestors_dict[distance]
-		return ancestors, ancestors_dict
+	# breadth-first, so that every object is found by a shortest path and limited by its length
+	ancestors = []
+	ancestors_dict = {}
+	objects_travelled = [obj]
+	current_objects = [obj]
+	distance = 0
+	while len(current_objects) > 0 and (max_height is None or distance < max_height):
+		distance += 1
+		next_objects = []
+		for current_object in current_objects:
+			for parent in current_object.__parents__():
+				if parent not in objects_travelled:
+					objects_travelled.append(parent)
+					next_objects.append(parent)
+		if len(next_objects) > 0:
+			ancestors += next_objects
+			ancestors_dict[distance] = next_objects
+		current_objects = next_objects
+	return ancestors, ancestors_dict
 
 
 def get_ancestors(obj, distance: bool = True, max_height: Optional[int] = None) -> Union[List, Dict]:
@@ -53,7 +44,7 @@ def get_ancestors(obj, distance: bool = True, max_height: Optional[int] = None)
 	Returns:
 		Union[List, Dict]: A list of ancestors or a dictionary of ancestors with their distances.
 	"""
-	ancestors, ancestors_dict = _get_ancestors(obj=obj, _objects_travelled=None, max_height=max_height)
+	ancestors, ancestors_dict = _get_ancestors(obj=obj, max_height=max_height)
 	if distance:
 		return ancestors_dict
 	else:
diff --git a/abstract/get_descendants.py b/abstract/get_descendants.py
index 4771e5e..38095db 100755
--- a/abstract/get_descendants.py
+++ b/abstract/get_descendants.py
@@ -1,44 +1,35 @@
 from typing import List, Dict, Optional, Tuple, Union
 
-def _get_descendants(obj, _objects_travelled: Optional[List] = None, max_depth: Optional[int] = None) -> Tuple[List, Dict]:
+def _get_descendants(obj, max_depth: Optional[int] = None) -> Tuple[List, Dict]:
 	"""
 	Retrieves the descendants of an object.
 
 	Args:
 		obj: The object to retrieve descendants from.
-		_objects_travelled (Optional[List]): List of objects already travelled.
 		max_depth (Optional[int]): Maximum depth for travelling through objects' children.
 
 	Returns:
 		Tuple[List, Dict]: A tuple containing a list of descendants and a dictionary of descendants with their distances.
 	"""
-	if max_depth is not None:
-		if max_depth <= 0:
-			return [], {}
-		else:
-			max_depth -= 1
-	_objects_travelled = _objects_travelled or []
-	_objects_travelled.append(obj)
-	children = obj.__children__()
-	if len(children) == 0:
-		return [], {}
-	else:
-		descendants = []
-		descendants_dict = {1: []}
-		for child in children:
-			if child not in _objects_travelled:
-				if child not in descendants:
-					descendants.append(child)
-					descendants_dict[1].append(child)
-				child_descendants, child_descendants_dict = _get_descendants(
-					obj=child, _objects_travelled=_objects_travelled, max_depth=max_depth
-				)
-				for descendant in child_descendants:
-					if descendant not in descendants:
-						descendants.append(descendant)
-						for distance in child_descendants_dict.keys():
-							descendants_dict[distance + 1] = child_descendants_dict[distance]
-		return descendants, descendants_dict
+	# breadth-first, so that every object is found by a shortest path and limited by its length
+	descendants = []
+	descendants_dict = {}
+	objects_travelled = [obj]
+	current_objects = [obj]
+	distance = 0
+	while len(current_objects) > 0 and (max_depth is None or distance < max_depth):
+		distance += 1
+		next_objects = []
+		for current_object in current_objects:
+			for child in current_object.__children__():
+				if child not in objects_travelled:
+					objects_travelled.append(child)
+					next_objects.append(child)
+		if len(next_objects) > 0:
+			descendants += next_objects
+			descendants_dict[distance] = next_objects
+		current_objects = next_objects
+	return descendants, descendants_dict
 
 
 def get_descendants(obj, distance: bool = True, max_depth: Optional[int] = None) -> Union[List, Dict]:
@@ -53,7 +44,7 @@ def get_descendants(obj, distance: bool = True, max_depth: Optional[int] = None)
 	Returns:
 		Union[List, Dict]: A list of descendants or a dictionary of descendants with their distances.
 	"""
-	descendants, descendants_dict = _get_descendants(obj=obj, _objects_travelled=None, max_depth=max_depth)
+	descendants, descendants_dict = _get_descendants(obj=obj, max_depth=max_depth)
 	if distance:
 		return descendants_dict
 	else:
-- 
2.43.0


From f4358c7de73a2e8559e803a3ec1bb60ba1839ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:26 +0000
Subject: [PATCH 07/29] fix: text tree of a deep graph raised RecursionError

---
 abstract/Node.py | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/abstract/Node.py b/abstract/Node.py
index 1f203f9..fb2c212 100755
--- a/abstract/Node.py
+++ b/abstract/Node.py
@@ -286,27 +286,33 @@ class Node(GraphObj):
 		if already_added is None:
 			already_added = []
 
-		tree_string = self.label
+		# a stack instead of recursion, so that the depth of the graph is not limited
+		tree_string = ''
+		stack = [('', self, indentation)]
 
-		if self in already_added:
-			tree_string += '*\n'
+		while stack:
+			prefix, node, indentation = stack.pop()
+			tree_string += prefix + node.label
 
-		else:
-			tree_string += '\n'
-			num_children = len(self.children)
+			if node in already_added:
+				tree_string += '*\n'
+
+			else:
+				tree_string += '\n'
+				children = node.children
+				num_children = len(children)
+				branches = []
 
-			for child_num, child in enumerate(self.children):
+				if num_children > 0:
+					already_added.append(node)
 
-				already_added.append(self)
-				if child_num+1 == num_children:
-					tree_string += indentation + CORNER + ' ' + child.get_tree_str(
-						indentation=indentation + '  ', already_added=already_added
-					)
+				for child_num, child in enumerate(children):
+					if child_num+1 == num_children:
+						branches.append((indentation + CORNER + ' ', child, indentation + '  '))
+					else:
+						branches.append((indentation + TWO_WAY + ' ', child, indentation + VERTICAL + ' '))
 
-				else:
-					tree_string += indentation + TWO_WAY + ' ' + child.get_tree_str(
-						indentation=indentation + VERTICAL + ' ', already_added=already_added
-					)
+				stack += reversed(branches)
 
 		return tree_string
 
-- 
2.43.0


From 6c63640f2854336d2370d868dbde41e8303a4ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:26 +0000
Subject: [PATCH 08/29] fix: copied, pickled and inverted styles lost
 attributes or kept stale colours

---
 abstract/styling/EdgeStyle.py |  8 +++++++-
 abstract/styling/NodeStyle.py | 23 ++++++++++++++++++++++-
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/abstract/styling/EdgeStyle.py b/abstract/styling/EdgeStyle.py
index bd2b272..b555f5a 100755
--- a/abstract/styling/EdgeStyle.py
+++ b/abstract/styling/EdgeStyle.py
@@ -48,6 +48,7 @@ class EdgeStyle:
 
 	def reset_colours(self):
 		self._text_colour = None
+		self._text_colour_based_on_main_colour = True
 
 	def copy(self):
 		"""
@@ -56,9 +57,12 @@ class EdgeStyle:
 		result = self.__class__(
 			colour=self._colour, opacity=self._opacity,
 			font=self._font, text_colour=self._text_colour, text_size=self._text_size,
-			arrow_size=self._arrow_size, line_width=self._line_width
+			arrow_size=self._arrow_size, label_style=self._label_style, line_width=self._line_width
 		)
 		result._text_colour_based_on_main_colour = self._text_colour_based_on_main_colour
+		if self._text_colour is None:
+			# a colour that was reset has to stay so
+			result._text_colour = None
 		return result
 
 	def invert_colours(self):
@@ -116,6 +120,7 @@ class EdgeStyle:
 			'_opacity': self._opacity,
 			'_font': self._font,
 			'_text_colour': self._text_colour,
+			'_text_colour_based_on_main_colour': self._text_colour_based_on_main_colour,
 			'_text_size': self._text_size,
 			'_arrow_size': self._arrow_size,
 			'_label_style': self._label_style,
@@ -127,6 +132,7 @@ class EdgeStyle:
 		self._opacity = state['_opacity']
 		self._font = state['_font']
 		self._text_colour = state['_text_colour']
+		self._text_colour_based_on_main_colour = state['_text_colour_based_on_main_colour']
 		self._text_size = state['_text_size']
 		self._arrow_size = state['_arrow_size']
 		self._label_style = state['_label_style']
diff --git a/abstract/styling/NodeStyle.py b/abstract/styling/NodeStyle.py
index d48223d..14e4463 100755
--- a/abstract/styling/NodeStyle.py
+++ b/abstract/styling/NodeStyle.py
@@ -55,6 +55,9 @@ class NodeStyle:
 		self._fill_colour = None
 		self._border_colour = None
 		self._text_colour = None
+		self._fill_colour_based_on_main_colour = True
+		self._border_colour_based_on_main_colour = True
+		self._text_colour_based_on_main_colour = True
 
 	def invert_colours(self):
 		"""
@@ -89,11 +92,18 @@ class NodeStyle:
 		result = self.__class__(
 			colour=self._colour, fill_colour=self._fill_colour, border_colour=self._border_colour,
 			opacity=self._opacity, font=self._font, text_colour=self._text_colour, text_size=self._text_size,
-			shape=self._shape, shape_style=self._shape_style
+			shape=self._shape, shape_style=self._shape_style, lighter_fill=self._lighter_fill
 		)
 		result._fill_colour_based_on_main_colour = self._fill_colour_based_on_main_colour
 		result._text_colour_based_on_main_colour = self._text_colour_based_on_main_colour
 		result._border_colour_based_on_main_colour = self._border_colour_based_on_main_colour
+		# colours that were reset have to stay so
+		if self._fill_colour is None:
+			result._fill_colour = None
+		if self._border_colour is None:
+			result._border_colour = None
+		if self._text_colour is None:
+			result._text_colour = None
 		return result
 
 	@property
@@ -135,6 +145,7 @@ class NodeStyle:
 	def fill_colour(self, fill_colour):
 		if fill_colour is not None:
 			self._fill_colour = Colour(fill_colour)
+			self._fill_colour_based_on_main_colour = False
 
 	@property
 	def border_colour(self):
@@ -147,6 +158,7 @@ class NodeStyle:
 	def border_colour(self, border_colour):
 		if border_colour is not None:
 			self._border_colour = Colour(border_colour)
+			self._border_colour_based_on_main_colour = False
 
 	@property
 	def text_colour(self):
@@ -166,6 +178,11 @@ class NodeStyle:
 			'_colour': self._colour,
 			'_fill_colour': self._fill_colour,
 			'_border_colour': self._border_colour,
+			'_opacity': self._opacity,
+			'_lighter_fill': self._lighter_fill,
+			'_fill_colour_based_on_main_colour': self._fill_colour_based_on_main_colour,
+			'_border_colour_based_on_main_colour': self._border_colour_based_on_main_colour,
+			'_text_colour_based_on_main_colour': self._text_colour_based_on_main_colour,
 			'_font': self._font,
 			'_text_colour': self._text_colour,
 			'_text_size': self._text_size,
@@ -178,6 +195,10 @@ class NodeStyle:
 		self._fill_colour = state['_fill_colour']
 		self._border_colour = state['_border_colour']
 		self._opacity = state['_opacity']
+		self._lighter_fill = state['_lighter_fill']
+		self._fill_colour_based_on_main_colour = state['_fill_colour_based_on_main_colour']
+		self._border_colour_based_on_main_colour = state['_border_colour_based_on_main_colour']
+		self._text_colour_based_on_main_colour = state['_text_colour_based_on_main_colour']
 		self._font = state['_font']
 		self._text_colour = state['_text_colour']
 		self._text_size = state['_text_size']
-- 
2.43.0


From b8c08b2442fd8f1990ddfe04e276680c456c0455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:17 +0000
Subject: [PATCH 09/29] fix: copied and pickled graphs lost their settings,
 styles and colour scheme

---
 abstract/_BasicGraph.py          |  4 ++++
 abstract/_GraphWithoutDisplay.py | 16 +++++++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index d454336..69e249f 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -61,6 +61,10 @@ class BasicGraph:
 		"""
 		return deepcopy(self)
 
+	def __copy__(self) -> 'BasicGraph':
+		"""A copy that shares nodes with the original would take them away from it."""
+		return self.copy()
+
 	def filter(self, nodes: Optional[List[Union[str, Node]]] = None, direction: str = 'to_and_from', filter_type: str = 'include') -> 'BasicGraph':
 		"""
 		Filters nodes out or in and returns a new graph.
diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index a6b494c..1446e2e 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -5,7 +5,7 @@ from graphviz import Source
 import os
 from functools import wraps
 import random
-from colouration import Colour
+from colouration import Colour, Scheme
 from .styling import stylize_with_pensieve, stylize_randomly
 from typing import Optional, Union, Dict, Callable
 from .Node import Node
@@ -109,6 +109,14 @@ class GraphWithoutDisplay(BasicGraph):
 		if obj:
 			self.append(obj=obj)
 
+	_STATE_ATTRIBUTES = BasicGraph._STATE_ATTRIBUTES + [
+		'_node_label_converter', '_edge_label_converter', '_background_colour', '_direction',
+		'_global_node_style_overwrite', '_global_edge_style_overwrite',
+		'_node_style_overwrites', '_edge_style_overwrites', '_node_colour_overwrites', '_edge_colour_overwrites',
+		'_label', '_label_location', '_label_colour', '_label_url', '_label_background_colour', '_tooltip',
+		'_font', '_font_size', '_kwargs', '_colour_scheme', '_stylist', '_style_overwrite_allowed'
+	]
+
 	def __getstate__(self) -> Dict:
 		"""
 		Returns the state of the graph for pickling.
@@ -116,6 +124,9 @@ class GraphWithoutDisplay(BasicGraph):
 			Dict: The state of the graph.
 		"""
 		state = super().__getstate__()
+		if isinstance(self._colour_scheme, Scheme):
+			# a Scheme cannot be restored from a copy or a pickle, its name and colours can
+			state['_colour_scheme'] = (self._colour_scheme._name, [Colour(colour) for colour in self._colour_scheme.colours])
 		return state
 
 	def update_nodes(self):
@@ -133,6 +144,9 @@ class GraphWithoutDisplay(BasicGraph):
 			state: The pickled state of the graph.
 		"""
 		super().__setstate__(state=state)
+		if isinstance(self._colour_scheme, tuple):
+			name, colours = self._colour_scheme
+			self._colour_scheme = Scheme(colours=colours, name=name, normalize_lightness=None)
 		'''
 		self._node_style = state['node_style']
 		self._edge_style = state['edge_style']
-- 
2.43.0


From df518ab11a8a55565ce8b4d957aca5c57b9c6258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:17 +0000
Subject: [PATCH 10/29] fix: filter ignored its direction

---
 abstract/_BasicGraph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 69e249f..3be30c8 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -83,11 +83,11 @@ class BasicGraph:
 			node = self.get_node(node=x)
 			name = node.name
 			relatives[name] = 1
-			if direction == 'to' or 'to_and_from':
+			if direction == 'to' or direction == 'to_and_from':
 				for ancestor in node.ancestors:
 					relatives[ancestor.name] = 1
 
-			if direction == 'from' or 'to_and_from':
+			if direction == 'from' or direction == 'to_and_from':
 				for descendant in node.descendants:
 					relatives[descendant.name] = 1
 
-- 
2.43.0


From f4dcb70f88db8e64422c437cfc358b2bede096d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:18 +0000
Subject: [PATCH 11/29] fix: similarity raised KeyError for different graphs
 and was false for equal styles

---
 abstract/Node.py        | 4 ++++
 abstract/_BasicGraph.py | 2 ++
 abstract/_GraphObj.py   | 4 +++-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/abstract/Node.py b/abstract/Node.py
index fb2c212..0ae7322 100755
--- a/abstract/Node.py
+++ b/abstract/Node.py
@@ -120,10 +120,14 @@ class Node(GraphObj):
 		if len(self._inward_edges_dict) != len(other._inward_edges_dict):
 			return False
 		for id, outward_edge in self._outward_edges_dict.items():
+			if id not in other._outward_edges_dict:
+				return False
 			other_outward_edge = other._outward_edges_dict[id]
 			if not outward_edge.is_similar_to(other=other_outward_edge):
 				return False
 		for id, inward_edge in self._inward_edges_dict.items():
+			if id not in other._inward_edges_dict:
+				return False
 			other_inward_edge = other._inward_edges_dict[id]
 			if not inward_edge.is_similar_to(other=other_inward_edge):
 				return False
diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 3be30c8..1a58350 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -745,6 +745,8 @@ class BasicGraph:
 			return False
 
 		for name, node in self._nodes_dict.items():
+			if name not in other._nodes_dict:
+				return False
 			other_node = other._nodes_dict[name]
 			if not node.is_similar_to(other=other_node):
 				return False
diff --git a/abstract/_GraphObj.py b/abstract/_GraphObj.py
index 895d0c9..da3ec17 100755
--- a/abstract/_GraphObj.py
+++ b/abstract/_GraphObj.py
@@ -158,7 +158,9 @@ class GraphObj:
 		"""
 		condition_1 = self.id == other.id
 		condition_2 = self._value == other._value
-		condition_3 = self._style == other._style
+		condition_3 = self.has_style() == other.has_style()
+		if self.has_style() and other.has_style():
+			condition_3 = self._style.get_graphviz_str() == other._style.get_graphviz_str()
 		condition_4 = self._parameters == other._parameters
 		return  condition_1 and condition_2 and condition_3 and condition_4
 
-- 
2.43.0


From 6005be5d8f79be2efcefcf2ff964526518ef101f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:18 +0000
Subject: [PATCH 12/29] fix: render wrote a pdf whatever the extension of the
 path

---
 abstract/_GraphWithoutDisplay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 1446e2e..69098dd 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -744,7 +744,7 @@ class GraphWithoutDisplay(BasicGraph):
 			to_save = self.get_graphviz_source(
 				direction=direction, pad=pad, dpi=dpi, height=height, width=width, output_format=output_format
 			)
-			to_save.render(filename=filename, view=view)
+			to_save.render(filename=filename, format=output_format or None, view=view)
 			return self.get_graphviz_source(direction=direction, pad=pad, dpi=None)
 
 	"""
-- 
2.43.0


From f066d8f6076cd4001941076848634194a9e5b477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:20 +0000
Subject: [PATCH 13/29] fix: indented text was corrupted, accepted partial
 indentation, failed on a blank first line and lost its text in the graph

---
 abstract/_BasicGraph.py                 |  2 +-
 abstract/parse_indentations_function.py | 16 +++++++++-------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 1a58350..faf705a 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -175,7 +175,7 @@ class BasicGraph:
 		lines = parse_indentations(lines, indent=indent)
 
 		for index, level, content, parent_index in lines:
-			graph.add_node(name=str(index), label=f'line {index}')
+			graph.add_node(name=str(index), label=content)
 
 			if parent_index is not None:
 				graph.connect(start=str(parent_index), end=str(index))
diff --git a/abstract/parse_indentations_function.py b/abstract/parse_indentations_function.py
index 7c3e8c5..16455da 100755
--- a/abstract/parse_indentations_function.py
+++ b/abstract/parse_indentations_function.py
@@ -13,23 +13,25 @@ def parse_indentations(lines: List[str], indent: Optional[str] = None) -> Genera
 	Yields:
 		Tuple[int, int, str, Optional[int]]: A tuple containing the index, level, content, and parent index.
 	"""
-	regex = re.compile(r'^(?P<indent>(?: {4})*)(?P<name>\S.*)')
+	regex = re.compile(r'^(?P<name>\S.*)')
 	stack = []
+	level = 0
 
 	for index, line in enumerate(lines):
 		line = line.rstrip('\n')
 		if indent is None:
-			if line.startswith('\t') or line.startswith(' '):
+			if len(line.strip()) > 0 and (line.startswith('\t') or line.startswith(' ')):
 				indent = re.findall(pattern=r'^[ \t]+', string=line)[0]
-		if indent is not None:
-			line = line.replace(indent, " " * 4, len(line) - len(line.lstrip(indent)))
-		if len(line) > 0:
-			match = regex.match(line)
+		if len(line.strip()) > 0:
+			num_indents = 0
+			while indent and line.startswith(indent, num_indents * len(indent)):
+				num_indents += 1
+			match = regex.match(line[num_indents * len(indent or ''):])
 			if not match:
 				raise ValueError(
 					'Indentation not a multiple of spaces or tabs'.format(line)
 				)
-			level = len(match.group('indent')) // 4
+			level = num_indents
 			if level > len(stack):
 				raise ValueError('Indentation too deep: "{0}"'.format(line))
 			stack[level:] = [index]
-- 
2.43.0


From 1b24cb45e79b0aa2e25bd191f480f9bdd8ba9766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:45 +0000
Subject: [PATCH 14/29] fix: from_object failed on integer names, undiscovered
 relatives and missed links back to the object

---
 abstract/_BasicGraph.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index faf705a..4dd7f27 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -141,19 +141,21 @@ class BasicGraph:
 		descendants = get_descendants(obj=obj, distance=False, max_depth=max_depth)
 		ancestors = get_ancestors(obj=obj, distance=False, max_height=max_height)
 
+		# all nodes have to exist before they are connected, whatever the order of their discovery
+		for relative in descendants + ancestors:
+			graph.add_node(name=relative.__hash__(), label=str(relative), if_node_exists='ignore')
+
 		obj_and_descendants = [obj] + descendants
-		for child in descendants:
+		for child in obj_and_descendants:
 			for parent in child.__parents__():
 				if parent in obj_and_descendants:
-					graph.add_node(name=child.__hash__(), label=str(child))
-					graph.connect(start=parent.__hash__(), end=child.__hash__())
+					graph.connect(start=parent.__hash__(), end=child.__hash__(), if_edge_exists='ignore')
 
 		obj_and_ancestors = [obj] + ancestors
-		for parent in ancestors:
+		for parent in obj_and_ancestors:
 			for child in parent.__children__():
 				if child in obj_and_ancestors:
-					graph.add_node(name=parent.__hash__(), label=str(parent))
-					graph.connect(start=parent.__hash__(), end=child.__hash__())
+					graph.connect(start=parent.__hash__(), end=child.__hash__(), if_edge_exists='ignore')
 
 		return graph
 
@@ -281,7 +283,7 @@ class BasicGraph:
 		Returns:
 			Node: The created node.
 		"""
-		if isinstance(name, str):
+		if isinstance(name, (str, int)):
 			if name in self.nodes_dict:
 				if if_node_exists == 'ignore':
 					pass
@@ -325,7 +327,7 @@ class BasicGraph:
 				self.nodes_dict[node.id] = node
 				return node
 		else:
-			raise TypeError(f'node of type {type(node)} is not supported!')
+			raise TypeError(f'node of type {type(name)} is not supported!')
 
 	def remove_node(self, node: Union[str, Node]):
 		"""
-- 
2.43.0


From de06152cb9e2a091a45ee2282c946fb2f36b6c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:46 +0000
Subject: [PATCH 15/29] fix: a rejected value for a frozen duplicate replaced
 its label and style

---
 abstract/_BasicGraph.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 4dd7f27..8c38a50 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -293,6 +293,9 @@ class BasicGraph:
 					raise KeyError(f'duplicate node id:"{name}"!')
 
 				node = self.get_node(node=name)
+				if value is not None and node.is_frozen:
+					# before the style or the label is replaced
+					raise RuntimeError('GraphObj is frozen!')
 				if style is not None:
 					node.style = style
 				if label is not None:
@@ -698,6 +701,9 @@ class BasicGraph:
 				raise ValueError(f'Error! Edge {edge_id} already exists!')
 
 			edge = start.get_outward_edge(id=edge_id)
+			if value is not None and edge.is_frozen:
+				# before the style or the label is replaced
+				raise RuntimeError('GraphObj is frozen!')
 			if style is not None:
 				edge.style = style
 			if label is not None:
-- 
2.43.0


From 2f292297cb9669772dd67dc78e9f052467c902db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:46 +0000
Subject: [PATCH 16/29] fix: a graph had no usable representation and edge
 styles in a representation were taken for colours

---
 abstract/_GraphWithoutDisplay.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 69098dd..a248b17 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -450,7 +450,9 @@ class GraphWithoutDisplay(BasicGraph):
 				self._ordering = dictionary['ordering']
 
 			if 'label' in dictionary:
-				self._label = '\n' + dictionary['label']
+				self._label = dictionary['label']
+				if self._label is not None and not self._label.startswith('\n'):
+					self._label = '\n' + self._label
 
 			if 'tooltip' in dictionary:
 				self._tooltip = dictionary['tooltip']
@@ -458,12 +460,12 @@ class GraphWithoutDisplay(BasicGraph):
 			if 'label_url' in dictionary:
 				self._label_url = dictionary['label_url']
 
-			if 'global_node_style' in dictionary:
+			if dictionary.get('global_node_style') is not None:
 				self._global_node_style_overwrite = dictionary['global_node_style']
 			elif 'graph_node_style' in dictionary:
 				self._global_node_style_overwrite = dictionary['graph_node_style']
 
-			if 'global_edge_style' in dictionary:
+			if dictionary.get('global_edge_style') is not None:
 				self._global_edge_style_overwrite = dictionary['global_edge_style']
 			elif 'graph_edge_style' in dictionary:
 				self._global_edge_style_overwrite = dictionary['graph_edge_style']
@@ -478,18 +480,24 @@ class GraphWithoutDisplay(BasicGraph):
 				for node_name in dictionary['nodes']:
 					self.add_node(name=node_name)
 
+			# edges can be named by their start and end, or by their id
 			edges_dict = {}
+			for edge_id in self.edges_dict:
+				edges_dict[edge_id] = edge_id
+				edges_dict[edge_id[:2]] = edge_id
 			for parent_child_edge_dict in dictionary['edges']:
 
 				if len(parent_child_edge_dict) == 2:
 					parent, child = parent_child_edge_dict
 					edge = self.connect(start=parent, end=child)
 					edges_dict[(parent, child)] = edge.id
+					edges_dict[edge.id] = edge.id
 
 				elif len(parent_child_edge_dict) == 3:
 					parent, child, edge_dict = parent_child_edge_dict
 					edge = self.connect(start=parent, end=child, **edge_dict)
 					edges_dict[(parent, child)] = edge.id
+					edges_dict[edge.id] = edge.id
 
 				elif len(parent_child_edge_dict) < 2:
 					raise ValueError('Too few objects in an edge definition!')
@@ -503,7 +511,7 @@ class GraphWithoutDisplay(BasicGraph):
 			if 'edge_styles' in dictionary:
 				for parent_child_edge_id, edge_style in dictionary['edge_styles'].items():
 					edge_id = edges_dict[parent_child_edge_id]
-					self._edge_colour_overwrites[edge_id] = edge_style
+					self._edge_style_overwrites[edge_id] = edge_style
 
 			if 'node_colours' in dictionary:
 				for name, colour in dictionary['node_colours'].items():
@@ -542,9 +550,9 @@ class GraphWithoutDisplay(BasicGraph):
 		edges_list = []
 		for node in self.nodes:
 			nodes_dict[node.id] = {
-				'label': node.display_label_or_value,
+				'label': node._label,
 				'value': node.value,
-				'style': node.style
+				'style': node.style.copy() if node.has_style() else None
 			}
 
 			for edge in node.outward_edges:
@@ -553,9 +561,9 @@ class GraphWithoutDisplay(BasicGraph):
 					edge.end.id,
 					{
 						'id': edge.raw_id,
-						'label': edge.raw_label,
+						'label': edge.label,
 						'value': edge.value,
-						'style': edge.style
+						'style': edge.style.copy() if edge.has_style() else None
 					}
 				])
 
@@ -565,11 +573,12 @@ class GraphWithoutDisplay(BasicGraph):
 			'colour_scheme': self._colour_scheme,
 			'label': self._label,
 			'label_url': self._label_url,
-			'node_styles': self._node_style_overwrites,
-			'edge_styles': self._edge_style_overwrites,
+			'node_styles': dict(self._node_style_overwrites),
+			'edge_styles': dict(self._edge_style_overwrites),
 			'global_node_style': self._global_node_style_overwrite,
 			'global_edge_style': self._global_edge_style_overwrite,
-			'node_colours': self._node_colour_overwrites,
+			'node_colours': dict(self._node_colour_overwrites),
+			'edge_colours': dict(self._edge_colour_overwrites),
 			'nodes': nodes_dict,
 			'edges': edges_list
 		}
-- 
2.43.0


From 166ce242996badc578a8bdaf21b4b55eb46613ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:14 +0000
Subject: [PATCH 17/29] fix: adding graphs failed, combined values of the right
 operand with themselves and had no stable order

---
 abstract/_GraphWithoutDisplay.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index a248b17..ed18ce7 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -650,21 +650,19 @@ class GraphWithoutDisplay(BasicGraph):
 		d1 = self.__graph__()
 		d2 = other.__graph__()
 
-		node_styles = d1['node_styles']
-		node_styles.update(d2['node_styles'])
-
-		edge_styles = d1['edge_styles']
-		edge_styles.update(d2['edge_styles'])
+		# the left one wins, as for the styles of nodes and edges
+		node_styles = {**d2['node_styles'], **d1['node_styles']}
+		edge_styles = {**d2['edge_styles'], **d1['edge_styles']}
 
 		if add_values_function is None:
 			def add_values_function(x, y):
 				if x is None or y is None:
-					return x or y
+					return y if x is None else x
 				else:
 					return x + y
 
 		nodes = {}
-		for the_id in set(d1['nodes'].keys()).union(d2['nodes'].keys()):
+		for the_id in list(d1['nodes'].keys()) + [x for x in d2['nodes'].keys() if x not in d1['nodes']]:
 			if the_id in d1['nodes'] and the_id in d2['nodes']:
 				node1 = d1['nodes'][the_id]
 				node2 = d2['nodes'][the_id]
@@ -672,7 +670,7 @@ class GraphWithoutDisplay(BasicGraph):
 				for key in set(node1.keys()).union(node2.keys()):
 					if key in node1 and key in node2:
 						if key == 'value':
-							n[key] = add_values_function(node2[key], node2[key])
+							n[key] = add_values_function(node1[key], node2[key])
 						else:
 							n[key] = node1[key] or node2[key]
 					elif key in node1:
-- 
2.43.0


From 418067d5ae06af41ff0d4f26927eed91a8c2407d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:40 +0000
Subject: [PATCH 18/29] fix: overrides and global styles failed on styled,
 removed or no nodes and changed the style objects of the user

---
 abstract/_GraphWithoutDisplay.py | 135 +++++++++++++++++++++----------
 abstract/styling/EdgeStyle.py    |  16 ++++
 abstract/styling/NodeStyle.py    |  18 +++++
 3 files changed, 125 insertions(+), 44 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index ed18ce7..2e0099d 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -238,68 +238,115 @@ class GraphWithoutDisplay(BasicGraph):
 		"""
 		return {edge.id: edge.style for node in self.nodes for edge in node.outward_edges if edge.has_style()}
 
+	def _get_global_node_style(self) -> Optional[Dict]:
+		"""
+		Gets the attributes that the global node style states.
+
+		Returns:
+			Optional[Dict]: The attributes, or None if there is no global node style.
+		"""
+		if self._global_node_style_overwrite is None:
+			return None
+		if isinstance(self._global_node_style_overwrite, NodeStyle):
+			return self._global_node_style_overwrite.get_dictionary()
+
+		smart_global_node_style_overwrite = self._global_node_style_overwrite.copy()
+		if 'shape' in self._global_node_style_overwrite:
+			if self._global_node_style_overwrite['shape'].lower().startswith('auto'):
+				if max([len(str(node.name)) for node in self.nodes], default=0) < 3:
+					smart_global_node_style_overwrite['shape'] = 'circle'
+		return smart_global_node_style_overwrite
+
+	def _get_global_edge_style(self) -> Optional[Dict]:
+		"""
+		Gets the attributes that the global edge style states.
+
+		Returns:
+			Optional[Dict]: The attributes, or None if there is no global edge style.
+		"""
+		if isinstance(self._global_edge_style_overwrite, EdgeStyle):
+			return self._global_edge_style_overwrite.get_dictionary()
+		return self._global_edge_style_overwrite
+
+	@staticmethod
+	def _complement_style(obj: Union[Node, Edge], dictionary: Dict):
+		"""
+		Complements the style of a node or edge; the style object itself can belong to the user and is left alone.
+
+		Args:
+			obj (Union[Node, Edge]): The node or edge.
+			dictionary (Dict): The attributes to set, can be a style.
+		"""
+		if isinstance(dictionary, (NodeStyle, EdgeStyle)):
+			dictionary = dictionary.get_dictionary()
+
+		if obj.style is None:
+			obj.style = dictionary
+		else:
+			obj._style = obj.style.copy()
+			obj._style.complement(dictionary)
+
+	@staticmethod
+	def _overwrite_colour(obj: Union[Node, Edge], colour: Union[Colour, str]):
+		"""
+		Overwrites the colours of a node or edge.
+
+		Args:
+			obj (Union[Node, Edge]): The node or edge.
+			colour (Union[Colour, str]): The new colour.
+		"""
+		if obj.style is None:
+			obj.style = {'colour': colour}
+		else:
+			style = obj.style.copy()
+			style.reset_colours()
+			style.colour = colour
+			obj._style = style
+
 	def stylize(self):
 		"""Applies styles to the nodes and edges in the graph."""
-		if self._global_node_style_overwrite is not None:
-			smart_global_node_style_overwrite = None
-			if 'shape' in self._global_node_style_overwrite:
-				if self._global_node_style_overwrite['shape'].lower().startswith('auto'):
-					if max([len(str(node.name)) for node in self.nodes]) < 3:
-						smart_global_node_style_overwrite = self._global_node_style_overwrite.copy()
-						smart_global_node_style_overwrite['shape'] = 'circle'
-			if smart_global_node_style_overwrite is None:
-				smart_global_node_style_overwrite = self._global_node_style_overwrite
-
+		global_node_style = self._get_global_node_style()
+		if global_node_style is not None:
 			for node in self.nodes:
-				node.style = smart_global_node_style_overwrite
+				if node.style is None:
+					node.style = global_node_style
 
-		if self._global_edge_style_overwrite is not None:
+		global_edge_style = self._get_global_edge_style()
+		if global_edge_style is not None:
 			for edge in self.edges:
-				edge.style = self._global_edge_style_overwrite
+				if edge.style is None:
+					edge.style = global_edge_style
 
 		if self._stylist == 'pensieve':
 			stylize_with_pensieve(graph=self)
 		elif self._stylist == 'random':
 			stylize_randomly(graph=self)
 
+		# nodes and edges can have been removed since their styles were given
 		for name, style in self._node_style_overwrites.items():
-			self.nodes_dict[name].style.complement(style)
+			if name in self.nodes_dict:
+				self._complement_style(self.nodes_dict[name], style)
 
+		edges_dict = self.edges_dict
 		for edge_id, style in self._edge_style_overwrites.items():
-			self.edges_dict[edge_id].style = style
+			if edge_id in edges_dict:
+				self._complement_style(edges_dict[edge_id], style)
 
 		for name, colour in self._node_colour_overwrites.items():
-			node = self.nodes_dict[name]
-			style = node.style.copy()
-			style.reset_colours()
-			style.colour = colour
-			node.style = style
+			if name in self.nodes_dict:
+				self._overwrite_colour(self.nodes_dict[name], colour)
 
 		for edge_id, colour in self._edge_colour_overwrites.items():
-			edge = self.edges_dict[edge_id]
-			_ = edge.style.colour
-			style = edge.style.copy()
-			style.reset_colours()
-			style.colour = colour
-			edge.style = style
-			_ = edge.style.colour
-
-		if self._global_node_style_overwrite is not None:
-			smart_global_node_style_overwrite = None
-			if 'shape' in self._global_node_style_overwrite:
-				if self._global_node_style_overwrite['shape'].lower().startswith('auto'):
-					if max([len(str(node.name)) for node in self.nodes]) < 3:
-						smart_global_node_style_overwrite = self._global_node_style_overwrite.copy()
-						smart_global_node_style_overwrite['shape'] = 'circle'
-			if smart_global_node_style_overwrite is None:
-				smart_global_node_style_overwrite = self._global_node_style_overwrite
+			if edge_id in edges_dict:
+				self._overwrite_colour(edges_dict[edge_id], colour)
 
+		if global_node_style is not None:
 			for node in self.nodes:
-				node.style.complement(smart_global_node_style_overwrite)
+				self._complement_style(node, global_node_style)
 
-		if self._global_edge_style_overwrite is not None:
+		if global_edge_style is not None:
 			for edge in self.edges:
-				edge.style.complement(self._global_edge_style_overwrite)
+				self._complement_style(edge, global_edge_style)
 
 	def get_graphviz_header(
 			self, dpi: int = 300, direction: Optional[str] = None, 
@@ -573,12 +620,12 @@ class GraphWithoutDisplay(BasicGraph):
 			'colour_scheme': self._colour_scheme,
 			'label': self._label,
 			'label_url': self._label_url,
-			'node_styles': dict(self._node_style_overwrites),
-			'edge_styles': dict(self._edge_style_overwrites),
+			'node_styles': {key: x for key, x in self._node_style_overwrites.items() if key in self.nodes_dict},
+			'edge_styles': {key: x for key, x in self._edge_style_overwrites.items() if key in self.edges_dict},
 			'global_node_style': self._global_node_style_overwrite,
 			'global_edge_style': self._global_edge_style_overwrite,
-			'node_colours': dict(self._node_colour_overwrites),
-			'edge_colours': dict(self._edge_colour_overwrites),
+			'node_colours': {key: x for key, x in self._node_colour_overwrites.items() if key in self.nodes_dict},
+			'edge_colours': {key: x for key, x in self._edge_colour_overwrites.items() if key in self.edges_dict},
 			'nodes': nodes_dict,
 			'edges': edges_list
 		}
diff --git a/abstract/styling/EdgeStyle.py b/abstract/styling/EdgeStyle.py
index b555f5a..9d6d676 100755
--- a/abstract/styling/EdgeStyle.py
+++ b/abstract/styling/EdgeStyle.py
@@ -34,6 +34,22 @@ class EdgeStyle:
 		self._label_style = label_style
 		self._line_width = line_width
 
+	def get_dictionary(self):
+		"""
+		the arguments that make an equal style
+		:rtype: dict
+		"""
+		return {
+			'colour': self._colour,
+			'opacity': self._opacity,
+			'font': self._font,
+			'text_colour': self._text_colour,
+			'text_size': self._text_size,
+			'arrow_size': self._arrow_size,
+			'label_style': self._label_style,
+			'line_width': self._line_width
+		}
+
 	def complement(self, dictionary):
 		"""
 		:type dictionary: dict
diff --git a/abstract/styling/NodeStyle.py b/abstract/styling/NodeStyle.py
index 14e4463..19aa8c4 100755
--- a/abstract/styling/NodeStyle.py
+++ b/abstract/styling/NodeStyle.py
@@ -39,6 +39,24 @@ class NodeStyle:
 		self._shape = shape
 		self._shape_style = shape_style
 
+	def get_dictionary(self):
+		"""
+		the arguments that make an equal style
+		:rtype: dict
+		"""
+		return {
+			'colour': self._colour,
+			'fill_colour': self._fill_colour,
+			'border_colour': self._border_colour,
+			'opacity': self._opacity,
+			'font': self._font,
+			'text_colour': self._text_colour,
+			'text_size': self._text_size,
+			'shape': self._shape,
+			'shape_style': self._shape_style,
+			'lighter_fill': self._lighter_fill
+		}
+
 	def complement(self, dictionary):
 		"""
 		:type dictionary: dict
-- 
2.43.0


From 3f51f95ae80f1731bb5ea0b7a1a69ac291de3322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:41 +0000
Subject: [PATCH 19/29] fix: the style of an edge depended on the edges before
 it and failed for values that are not numbers

---
 abstract/styling/stylize_edges_based_on_nodes.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/abstract/styling/stylize_edges_based_on_nodes.py b/abstract/styling/stylize_edges_based_on_nodes.py
index 299c341..b6def71 100755
--- a/abstract/styling/stylize_edges_based_on_nodes.py
+++ b/abstract/styling/stylize_edges_based_on_nodes.py
@@ -1,3 +1,4 @@
+from numbers import Real
 from .EdgeStyle import EdgeStyle
 
 
@@ -7,13 +8,13 @@ def stylize_edges_based_on_nodes(graph, edge_style=None, edge_darkness_ratio=0.1
 			colour = edge.start.style.colour.darken(ratio=edge_darkness_ratio)
 
 			if edge_style is None:
-				edge_style = EdgeStyle(colour=colour)
+				style = EdgeStyle(colour=colour)
 			else:
-				edge_style = edge_style.copy()
-				edge_style.reset_colours()
-				edge_style.colour = colour
+				style = edge_style.copy()
+				style.reset_colours()
+				style.colour = colour
 
-			if edge.value is not None:
-				edge_style._arrow_size *= edge.value
+			if isinstance(edge.value, Real):
+				style._arrow_size *= edge.value
 
-			edge.style = edge_style
\ No newline at end of file
+			edge.style = style
-- 
2.43.0


From ebd758fb0be6efbc7df21973535347b4e8f4c062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:42 +0000
Subject: [PATCH 20/29] fix: nodes in loops were not drawn as red circles with
 yellow interiors and some had no style

---
 abstract/styling/stylize_with_pensieve.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/abstract/styling/stylize_with_pensieve.py b/abstract/styling/stylize_with_pensieve.py
index 9764f88..1fd7eea 100755
--- a/abstract/styling/stylize_with_pensieve.py
+++ b/abstract/styling/stylize_with_pensieve.py
@@ -16,6 +16,11 @@ def stylize_with_pensieve(
 		colour_scheme = graph._colour_scheme
 	colours_used = {colour: 0 for colour in colour_scheme.colours}
 
+	# loops
+	for node in graph.loop_nodes:
+		if node.style is None:
+			node.style = NodeStyle(colour='red', fill_colour='yellow', border_colour='red', shape='circle')
+
 	# roots or semi-roots
 	for node in graph.nodes:
 		if node.style is None:
-- 
2.43.0


From 0bbeeaef4f6d61d9ce10f7c58ccc93cae5d71015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:42 +0000
Subject: [PATCH 21/29] fix: the random stylist failed on nodes with a style,
 so a graph could not be rendered twice

---
 abstract/styling/stylize_randomly.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/abstract/styling/stylize_randomly.py b/abstract/styling/stylize_randomly.py
index ce200d7..a941c8f 100755
--- a/abstract/styling/stylize_randomly.py
+++ b/abstract/styling/stylize_randomly.py
@@ -23,14 +23,15 @@ def stylize_randomly(
 
 	# all nodes
 	for node in nodes:
-		colour = get_least_used_colour(colours_used)
-		if node_style is None:
-			style = NodeStyle(colour=colour)
-		else:
-			style = node_style.copy()
-			style.reset_colours()
-			style.colour = colour
-		node.style = style
+		if node.style is None:
+			colour = get_least_used_colour(colours_used)
+			if node_style is None:
+				style = NodeStyle(colour=colour)
+			else:
+				style = node_style.copy()
+				style.reset_colours()
+				style.colour = colour
+			node.style = style
 
 	# branch edges
 	stylize_edges_based_on_nodes(graph=graph, edge_style=edge_style, edge_darkness_ratio=edge_darkness_ratio)
-- 
2.43.0


From 791e5c8b25f60ea8db4979dc564f33a90675c2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:43 +0000
Subject: [PATCH 22/29] fix: rendering a layered graph took exponential time
 and a deep one exhausted the stack

---
 abstract/styling/inherit_style.py         | 54 ++++++++++++++++++-----
 abstract/styling/stylize_with_pensieve.py |  4 +-
 2 files changed, 46 insertions(+), 12 deletions(-)

diff --git a/abstract/styling/inherit_style.py b/abstract/styling/inherit_style.py
index 0e12ff5..1404605 100755
--- a/abstract/styling/inherit_style.py
+++ b/abstract/styling/inherit_style.py
@@ -15,7 +15,46 @@ def get_diverging_number(i, n, reverse):
 	return sorted(generate_diverging_numbers(n), reverse=reverse)[i]
 
 
-def inherit_style(node, pale_ratio, divergence_ratio, main_style):
+def get_inheritances(node, divergence_ratio, main_style):
+	"""
+	the styles (nodes and divergence ratios) from which the style of a node is made
+	:type node: Node
+	:rtype: list[tuple[Node, float]]
+	"""
+	if is_root_or_parents_are_in_loop(node):
+		return []
+	elif len(node.parents) == 1:
+		return [(node.parents[0], divergence_ratio)] if main_style is None else []
+	else:
+		return [(parent, 0) for parent in node.parents if not node.is_in_loop_with(parent)]
+
+
+def inherit_style(node, pale_ratio, divergence_ratio, main_style, styles=None):
+	"""
+	:type node: Node
+	:type styles: dict or NoneType
+	:rtype: NodeStyle
+	"""
+	# each style is made only once, after those it is made from: neither the depth of a graph
+	# nor the number of its paths is limited by recursion
+	styles = {} if styles is None else styles
+	stack = [(node, divergence_ratio)]
+	while len(stack) > 0:
+		current_node, current_ratio = stack[-1]
+		inheritances = get_inheritances(node=current_node, divergence_ratio=current_ratio, main_style=main_style)
+		missing = [(parent, ratio) for parent, ratio in inheritances if (parent.id, ratio) not in styles]
+		if len(missing) > 0:
+			stack += missing
+		else:
+			styles[(current_node.id, current_ratio)] = make_inherited_style(
+				node=current_node, inherited_styles=[styles[(parent.id, ratio)] for parent, ratio in inheritances],
+				pale_ratio=pale_ratio, divergence_ratio=current_ratio, main_style=main_style
+			)
+			stack.pop()
+	return styles[(node.id, divergence_ratio)].copy()
+
+
+def make_inherited_style(node, inherited_styles, pale_ratio, divergence_ratio, main_style):
 	"""
 	:type node: Node
 	:rtype: NodeStyle
@@ -31,9 +70,7 @@ def inherit_style(node, pale_ratio, divergence_ratio, main_style):
 			num_siblings = len(parent.children)
 			rank = node.get_child_rank(parent=parent)
 			if main_style is None:
-				style = inherit_style(
-					node=parent, pale_ratio=pale_ratio, divergence_ratio=divergence_ratio, main_style=main_style
-				)
+				style = inherited_styles[0]
 			else:
 				style = main_style
 			if num_siblings == 0:
@@ -49,14 +86,9 @@ def inherit_style(node, pale_ratio, divergence_ratio, main_style):
 			new_style.colour = colour
 			return new_style
 		else:
-			styles = [
-				inherit_style(node=parent, pale_ratio=pale_ratio, divergence_ratio=0, main_style=main_style)
-				for parent in node.parents
-				if not node.is_in_loop_with(parent)
-			]
-			colours = [style.colour for style in styles]
+			colours = [style.colour for style in inherited_styles]
 			if main_style is None:
-				style = styles[0]
+				style = inherited_styles[0]
 			else:
 				style = main_style
 			colour = Colour.mix(colours=colours).pale(ratio=pale_ratio)
diff --git a/abstract/styling/stylize_with_pensieve.py b/abstract/styling/stylize_with_pensieve.py
index 1fd7eea..d193e17 100755
--- a/abstract/styling/stylize_with_pensieve.py
+++ b/abstract/styling/stylize_with_pensieve.py
@@ -35,11 +35,13 @@ def stylize_with_pensieve(
 				node.style = style
 
 	# branch nodes
+	styles = {}
 	for node in graph.nodes:
 		if not is_root_or_parents_are_in_loop(node) and not node.is_in_loop():
 			if node.style is None:
 				node.style = inherit_style(
-					node=node, pale_ratio=pale_ratio, divergence_ratio=divergence_ratio, main_style=node_style
+					node=node, pale_ratio=pale_ratio, divergence_ratio=divergence_ratio, main_style=node_style,
+					styles=styles
 				)
 
 	# branch edges
-- 
2.43.0


From 230a226d57324a6f7769cd495525587ac779c887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:06 +0000
Subject: [PATCH 23/29] fix: rendering failed for an edge with a value that is
 too large for a float

---
 abstract/styling/stylize_edges_based_on_nodes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/abstract/styling/stylize_edges_based_on_nodes.py b/abstract/styling/stylize_edges_based_on_nodes.py
index b6def71..ed82246 100755
--- a/abstract/styling/stylize_edges_based_on_nodes.py
+++ b/abstract/styling/stylize_edges_based_on_nodes.py
@@ -15,6 +15,10 @@ def stylize_edges_based_on_nodes(graph, edge_style=None, edge_darkness_ratio=0.1
 				style.colour = colour
 
 			if isinstance(edge.value, Real):
-				style._arrow_size *= edge.value
+				try:
+					style._arrow_size *= edge.value
+				except OverflowError:
+					# an integer that is too large for a float cannot scale the arrow
+					pass
 
 			edge.style = style
-- 
2.43.0


From e4892c3c756a6f39d42d8188b98fe862fe4db7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:38 +0000
Subject: [PATCH 24/29] fix: the second picture of a graph with a colour
 override and a global darker fill differed from the first

---
 abstract/_GraphWithoutDisplay.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 2e0099d..d0d4833 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -334,6 +334,9 @@ class GraphWithoutDisplay(BasicGraph):
 
 		for name, colour in self._node_colour_overwrites.items():
 			if name in self.nodes_dict:
+				if global_node_style is not None:
+					# whether the fill is lighter decides which colours follow from the new one
+					self._complement_style(self.nodes_dict[name], global_node_style)
 				self._overwrite_colour(self.nodes_dict[name], colour)
 
 		for edge_id, colour in self._edge_colour_overwrites.items():
-- 
2.43.0


From e88d60cd7f523d0ab6e36efded24cbbe12789f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:23 +0000
Subject: [PATCH 25/29] fix: an HTML title in a representation was shown as
 text

---
 abstract/_GraphWithoutDisplay.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index d0d4833..dfee46e 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -501,7 +501,8 @@ class GraphWithoutDisplay(BasicGraph):
 
 			if 'label' in dictionary:
 				self._label = dictionary['label']
-				if self._label is not None and not self._label.startswith('\n'):
+				is_html = self._label is not None and self._label.startswith('<') and self._label.endswith('>')
+				if self._label is not None and not self._label.startswith('\n') and not is_html:
 					self._label = '\n' + self._label
 
 			if 'tooltip' in dictionary:
-- 
2.43.0


From 800abc2da368a2bae48b8d83a209eae950a751f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:04 +0000
Subject: [PATCH 26/29] fix: nodes made by the constructor all had the index 0,
 so they came first, sorted by name, and numbers and texts as names could not
 be sorted

---
 abstract/Node.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/abstract/Node.py b/abstract/Node.py
index 0ae7322..e4cc4ca 100755
--- a/abstract/Node.py
+++ b/abstract/Node.py
@@ -13,7 +13,7 @@ class Node(GraphObj):
 	def __init__(
 			self, graph: 'Graph', name: str, value: Optional[object] = None, 
 			label: Optional[str] = None, tooltip: Optional[str] = None, 
-			style: Optional[NodeStyle] = None, index: int = 0, **kwargs
+			style: Optional[NodeStyle] = None, index: Optional[int] = None, **kwargs
 	):
 		"""
 		Initializes a Node instance.
@@ -25,7 +25,7 @@ class Node(GraphObj):
 			label (Optional[str]): A more presentable/user-friendly name.
 			tooltip (Optional[str]): Tooltip for the node.
 			style (Optional[NodeStyle]): Style for the node.
-			index (int): Index of the node.
+			index (Optional[int]): Index of the node, the next index of the graph by default.
 			**kwargs: Additional keyword arguments.
 		"""
 
@@ -38,7 +38,7 @@ class Node(GraphObj):
 		self._inward_edges_dict = dict()
 		self._outward_edges_have_start_node = True
 		self._inward_edges_have_end_node = True
-		self._index = index
+		self._index = graph.generate_node_index() if index is None else index
 		graph._nodes_dict[name] = self
 
 	# make node hashable
-- 
2.43.0


From a0c86260181144a60ec30dd652f779e7433f628b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:13 +0000
Subject: [PATCH 27/29] fix: a removed node that was added to a graph again, or
 to another one, was sorted by its old index

---
 abstract/_BasicGraph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 8c38a50..650943a 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -327,6 +327,7 @@ class BasicGraph:
 					else:
 						raise ValueError(f'node with id "{node.id}" is already in a graph!')
 				node._graph = self
+				node._index = self.generate_node_index()
 				self.nodes_dict[node.id] = node
 				return node
 		else:
-- 
2.43.0


From caa1333be00368a294b9e8e7aa8f90bbe8c4ca9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:05 +0000
Subject: [PATCH 28/29] fix: render, get_svg and get_html ignored the height
 and width they were given when nothing was saved

---
 abstract/_GraphWithoutDisplay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index dfee46e..1d03648 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -795,7 +795,7 @@ class GraphWithoutDisplay(BasicGraph):
 		self.stylize()
 
 		if path is None:
-			return self.get_graphviz_source(direction=direction, pad=pad, dpi=None)# Source(source=self.get_graphviz_str(direction=direction, pad=pad, dpi=None))
+			return self.get_graphviz_source(direction=direction, height=height, width=width, pad=pad, dpi=None)
 		else:
 			filename, file_extension = os.path.splitext(path)
 			output_format = file_extension.lstrip('.')
-- 
2.43.0


From bab9bce7f4a421b4d76c3a14b79624eb5792b4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:02 +0000
Subject: [PATCH 29/29] fix: a seeded random graph reset the random numbers of
 the program and depended on other threads

---
 abstract/_GraphWithoutDisplay.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 1d03648..c23e427 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -662,11 +662,10 @@ class GraphWithoutDisplay(BasicGraph):
 		for n in node_names:
 			graph.add_node(name=str(n))
 
-		if seed is not None:
-			random.seed(seed)
+		generator = random if seed is None else random.Random(seed)
 		for n1 in node_names:
 			for n2 in node_names:
-				if random.uniform(0, 1) < connection_probability:
+				if generator.uniform(0, 1) < connection_probability:
 					if cycle:
 						graph.connect(start=str(n1), end=str(n2))
 					elif n1 < n2:
-- 
2.43.0

