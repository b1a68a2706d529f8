BG = 'abstract/_BasicGraph.py'
GW = 'abstract/_GraphWithoutDisplay.py'
ND = 'abstract/Node.py'
ED = 'abstract/Edge.py'
GO = 'abstract/_GraphObj.py'
NS = 'abstract/styling/NodeStyle.py'
ES = 'abstract/styling/EdgeStyle.py'
GR = 'abstract/Graph.py'
ST = 'abstract/styling/'
DEFS = []


def bug(id, property, edits, needs, breaks, demo):
	DEFS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug('c01-selfloop', 'C01', [(ED, '''		self.end.remove_inward_edge(edge_id=self.id)
		self._start = None''', '''		if self.end is not self.start:
			self.end.remove_inward_edge(edge_id=self.id)
		self._start = None''')],
	'a self-loop is removed through the edge itself', 'the removed self-loop stays among the inward edges of its node',
	'''
g = Graph()
a = g.add_node('a')
e = g.connect('a', 'a')
e.remove_self()
assert a.inward_edges_dict == {}, a.inward_edges_dict
''')

bug('c01-parallel', 'C01', [(ND, '''		for edge in self.edges:
			edge.remove_self()''', '''		neighbours = set()
		for edge in self.edges:
			pair = (edge.start.id, edge.end.id)
			if pair not in neighbours or edge.start is self:
				neighbours.add(pair)
				edge.remove_self()''')],
	'a node with two incoming parallel edges (different ids) is removed', 'one of the parallel edges stays in the graph, attached to a node that was removed',
	'''
g = Graph()
g.add_node('a'); b = g.add_node('b')
g.connect('a', 'b', id=1)
g.connect('a', 'b', id=2)
g.remove_node('b')
assert g.nodes_dict['a'].outward_edges_dict == {} and g.edges == []
''')

bug('c01-disconnect', 'C01', [(BG, '''		edge.start.remove_outward_edge(edge_id=edge.id)
		edge.end.remove_inward_edge(edge_id=edge.id)
		edge._raw_id = (None, None, None)''', '''		edge.start.remove_outward_edge(edge_id=edge.id)
		for inward_edge in edge.end.inward_edges:
			if inward_edge.start.id == edge.start.id:
				edge.end.remove_inward_edge(edge_id=inward_edge.id)
				break
		edge._raw_id = (None, None, None)''')],
	'two parallel edges, the later one is disconnected', 'the earlier parallel edge is lost on the side of its end, the removed one stays there',
	'''
g = Graph()
g.add_node('a'); b = g.add_node('b')
first = g.connect('a', 'b', id=1)
second = g.connect('a', 'b', id=2)
g.disconnect(second)
assert list(b.inward_edges_dict) == [('a', 'b', 1)], b.inward_edges_dict
''')

bug('c02-zero', 'C02', [(BG, '''				if label is not None:
					node.label = label
				if value is not None:
					node.value = value''', '''				if label is not None:
					node.label = label
				if value:
					node.value = value''')],
	'a node is added again with a value that counts as false', 'the new value 0 is dropped',
	'''
g = Graph()
g.add_node('a', value=5)
assert g.add_node('a', value=0, if_node_exists='ignore').value == 0
''')

bug('c02-error', 'C02', [(BG, '''			if if_edge_exists == 'ignore':
				pass
			elif if_edge_exists == 'warn':
				warnings.warn(f'Warning! Edge: {edge_id} already exists!')
			else:
				raise ValueError(f'Error! Edge {edge_id} already exists!')

			edge = start.get_outward_edge(id=edge_id)''', '''			edge = start.get_outward_edge(id=edge_id)
			if label is not None and not edge.label:
				edge.label = label
			if if_edge_exists == 'ignore':
				pass
			elif if_edge_exists == 'warn':
				warnings.warn(f'Warning! Edge: {edge_id} already exists!')
			else:
				raise ValueError(f'Error! Edge {edge_id} already exists!')
''')],
	"an edge without a label is connected again with a label and if_edge_exists='error'", 'the rejected call changes the label',
	'''
g = Graph()
g.add_node('a'); g.add_node('b')
e = g.connect('a', 'b')
try:
	g.connect('a', 'b', label='x', if_edge_exists='error')
except ValueError:
	pass
assert e.label is None, e.label
''')

bug('c03-rank', 'C03', [(ND, '''		return sorted(siblings).index(self)''', '''		return siblings.index(self)''')],
	'children are connected in another order than that in which they were added', 'the rank of a child follows the order of the connections',
	'''
g = Graph()
for n in 'pab':
	g.add_node(n)
g.connect('p', 'b'); g.connect('p', 'a')
assert g.get_node('a').get_child_rank(g.get_node('p')) == 0
''')

bug('c03-spouse', 'C03', [(BG, '''		for child in children:
			for childs_parent in self.get_parents(node=child):
				if childs_parent not in spouses and childs_parent != node:
					spouses.append(childs_parent)''', '''		for child in [child for child in children if child != node]:
			for childs_parent in self.get_parents(node=child):
				if childs_parent not in spouses and childs_parent != node:
					spouses.append(childs_parent)''')],
	'a node that is its own child has another parent', 'the other parent is not among the spouses of the graph, but is among the co-parents of the node',
	'''
g = Graph()
a = g.add_node('a'); b = g.add_node('b')
g.connect('a', 'a'); g.connect('b', 'a')
assert g.get_spouses('a') == [b]
''')

bug('c03-siblings', 'C03', [(ND, '''				if child.id not in siblings and child != self:
					siblings[child.id] = child''', '''				if child.label not in siblings and child != self:
					siblings[child.label] = child''')],
	'two siblings have the same label', 'only one of them is among the siblings',
	'''
g = Graph()
for n in 'pabc':
	g.add_node(n, label='x')
for n in 'abc':
	g.connect('p', n)
assert [n.name for n in g.get_node('a').siblings] == ['b', 'c']
''')

bug('c04-cache', 'C04', [(ND, '''		return self.graph.get_descendants(node=self, distance=False)''', '''		key = (len(self.graph.nodes_dict), self.outward_edge_ids)
		if getattr(self, '_descendants', (None, None))[0] != key:
			self._descendants = (key, self.graph.get_descendants(node=self, distance=False))
		return self._descendants[1]''')],
	'descendants are asked for, an edge further down is added or removed without changing the number of nodes, and they are asked for again', 'the answer is stale',
	'''
g = Graph()
for n in 'abc':
	g.add_node(n)
g.connect('a', 'b')
assert [n.name for n in g.get_node('a').descendants] == ['b']
g.connect('b', 'c')
assert [n.name for n in g.get_node('a').descendants] == ['b', 'c']
''')

bug('c04-own', 'C04', [(ND, '''		return self.graph.get_ancestors(node=self, distance=False)''', '''		ancestors = self.graph.get_ancestors(node=self, distance=False)
		return [ancestor for ancestor in ancestors if ancestor.label != self.label]''')],
	'an ancestor has the same label as the node', 'the ancestor is missing',
	'''
g = Graph()
a = g.add_node('a', label='x'); b = g.add_node('b', label='x')
g.connect('a', 'b')
assert b.ancestors == [a]
''')

bug('c05-strict', 'C05', [(BG, '''		return [inward_edge.start for inward_edge in self.get_inward_edges(node=node)]''', '''		edges = self.get_inward_edges(node=node)
		if self._is_strict:
			# parallel edges do not count
			edges = {edge.id[:-1][0][:8]: edge for edge in edges}.values()
		return [inward_edge.start for inward_edge in edges]''')],
	'a strict graph in which two parents of a node have long names with the same beginning', 'one of the parents is lost, its ancestors are missing or too far',
	'''
g = Graph(strict=True)
for n in ('c', 'ancestor-1', 'ancestor-2'):
	g.add_node(n)
g.connect('ancestor-1', 'c'); g.connect('ancestor-2', 'c')
assert len(g.get_ancestors('c')[1]) == 2
''')

bug('c05-parallel', 'C05', [(BG, '''		return [outward_edge.end for outward_edge in self.get_outward_edges(node=node)]''', '''		edges = self.get_outward_edges(node=node)
		if len(edges) > 8:
			# far from the start the labels tell the nodes apart
			edges = list({edge.end.label: edge for edge in edges}.values())
		return [outward_edge.end for outward_edge in edges]''')],
	'a node with more than eight children, two of which have the same label', 'children, and what only they lead to, are missing from the distances',
	'''
g = Graph()
g.add_node('a')
for i in range(9):
	g.add_node(str(i), label='x')
	g.connect('a', str(i))
assert len(g.get_descendants('a')[1]) == 9
''')

bug('c06-zero', 'C06', [('abstract/get_ancestors.py', '''	ancestors, ancestors_dict = _get_ancestors(obj=obj, max_height=max_height)
	if distance:
		return ancestors_dict
	else:
		return ancestors''', '''	ancestors, ancestors_dict = _get_ancestors(obj=obj, max_height=max_height)
	if distance:
		return ancestors_dict
	else:
		return list(dict.fromkeys(ancestors))''')],
	'objects whose hash is broken or that cannot be hashed, without distances', 'objects that cannot be hashed cannot be traversed',
	'''
class O:
	__hash__ = None
	def __init__(self): self.parents = []
	def __parents__(self): return self.parents
	def __eq__(self, other): return self is other
a, b = O(), O()
a.parents.append(b)
assert get_ancestors(a, distance=False) == [b]
''')

bug('c06-limit', 'C06', [('abstract/get_descendants.py', '''	if distance:
		return descendants_dict
	else:
		return descendants''', '''	if distance:
		return descendants_dict
	elif max_depth:
		return descendants
	else:
		return _get_descendants(obj=obj)[0]''')],
	'a depth limit of 0 without distances', 'descendants beyond the limit are returned',
	'''
class O:
	def __init__(self, *c): self.c = c
	def __children__(self): return self.c
assert get_descendants(O(O()), distance=False, max_depth=0) == []
''')

bug('c07-self', 'C07', [(BG, '''		node1 = self.get_node(node1)
		node2 = self.get_node(node2)
		node1_is_ancestor_to_node2 = node1 in''', '''		node1 = self.get_node(node1)
		node2 = self.get_node(node2)
		node1_is_ancestor_to_node2 = node1 is node2 or node1 in'''),
	(BG, 'node2_is_ancestor_to_node1 = node2 in', 'node2_is_ancestor_to_node1 = node1 is node2 or node2 in')],
	'the question is asked for a node and itself', 'a node that is in no loop is said to be in a loop with itself',
	'''
g = Graph()
a = g.add_node('a')
assert not a.is_in_loop_with(a)
''')

bug('c07-edge', 'C07', [(ED, '''		return self.start.is_in_loop_with(self.end)''', '''		return self.start.is_in_loop() and self.end.is_in_loop()''')],
	'an edge leads from one loop to another', 'the edge is said to be in a loop',
	'''
g = Graph()
for n in 'abcd':
	g.add_node(n)
for s, e in ('ab', 'ba', 'cd', 'dc'):
	g.connect(s, e)
assert not g.connect('b', 'c').is_in_loop()
''')

bug('c08-skip', 'C08', [(BG, '''		for node in self.nodes:
			if node in possible_roots:
				for descendant''', '''		for node in possible_roots:
			if node in possible_roots:
				for descendant''')],
	'a node is a descendant of a node added later, and a further root follows', 'the root after it is skipped, so its descendants are roots as well',
	'''
g = Graph()
for n in 'abcd':
	g.add_node(n)
g.connect('b', 'a'); g.connect('c', 'd')
assert [n.name for n in g.roots] == ['b', 'c']
''')

bug('c08-absolute', 'C08', [(BG, '''		return [node for node in self.nodes if not node.has_parents()]''', '''		return [node for node in self.nodes if node.has_parents() in ([], [node])]''')],
	'a node whose only parent is itself', 'the node has a parent but is an absolute root',
	'''
g = Graph()
g.add_node('a')
g.connect('a', 'a')
assert g.absolute_roots == []
''')

bug('c09-shared', 'C09', [(BG, '''			tree_string = root.get_tree_str(already_added=already_added)''', '''			tree_string = root.get_tree_str(already_added=already_added.copy())''')],
	'a node with children can be reached from two roots', 'it is expanded under both',
	'''
g = Graph()
for n in 'abcd':
	g.add_node(n)
g.connect('a', 'c'); g.connect('b', 'c'); g.connect('c', 'd')
assert g.get_tree_str().count('d') == 1
''')

bug('c10-frozen', 'C10', [(ED, '''			'start': None,
			'end': None,
			'id': self.raw_id
		})''', '''			'start': None,
			'end': None,
			'id': self.raw_id,
			'frozen': self._frozen and self._value is not None
		})''')],
	'a frozen edge without a value is copied', 'the edge of the copy is not frozen',
	'''
g = Graph()
g.add_node('a'); g.add_node('b')
g.connect('a', 'b').freeze()
assert g.copy().edges[0].is_frozen
''')

bug('c10-counter', 'C10', [(BG, '''	def __setstate__(self, state: Dict):
		"""Restores the state of the graph from a pickled state."""
		for key, value in state.items():
			setattr(self, key, value)''', '''	def __setstate__(self, state: Dict):
		"""Restores the state of the graph from a pickled state."""
		for key, value in state.items():
			setattr(self, key, value)
		self._node_counter = len(self._nodes_dict)''')],
	'a node is removed, the graph is copied and a node is added to the copy', 'the new node of the copy has the index of an old one, sorting no longer gives the order of addition',
	'''
g = Graph()
for n in 'zyx':
	g.add_node(n)
g.remove_node('z')
c = g.copy()
c.add_node('a')
assert [n.name for n in sorted(c.nodes)] == ['y', 'x', 'a']
''') if False else None

bug('c10-params', 'C10', [(GO, '''		self._parameters = state['parameters']''', '''		self._parameters = {key: value for key, value in state['parameters'].items() if value}''')],
	'a node has an extra parameter that counts as false', 'the copy lacks the parameter',
	'''
g = Graph()
g.add_node('a', weight=0)
assert g.copy().get_node('a')['weight'] == 0
''')

bug('c11-subset', 'C11', [(ND, '''		if len(self._inward_edges_dict) != len(other._inward_edges_dict):
			return False
''', ''), (ND, '''		if len(self._outward_edges_dict) != len(other._outward_edges_dict):
			return False
''', '')],
	'the other graph has the same nodes and more edges', 'the smaller graph is similar to the bigger one, but not the other way around',
	'''
g, h = Graph(), Graph()
for x in (g, h):
	x.add_node('a'); x.add_node('b')
h.connect('a', 'b')
assert not g.is_similar_to(h)
''')

bug('c11-style', 'C11', [(GO, '''		return  condition_1 and condition_2 and condition_3 and condition_4''', '''		return condition_1 and condition_2 and (condition_3 or not self.has_style()) and condition_4''')],
	'only the other of the two has a style', 'an unstyled node is similar to a styled one',
	'''
g, h = Graph(), Graph()
h.add_node('a', style={'colour': 'red'}); g.add_node('a')
assert not g.is_similar_to(h)
''')

bug('c12-exclude', 'C12', [(BG, '''			to_delete = relatives.keys()''', '''			to_delete = [name for name in relatives if len(self.get_node(name).edges) > 0]''')],
	'an isolated node is excluded', 'the excluded node stays',
	'''
g = Graph()
g.add_node('a'); g.add_node('b')
assert [n.name for n in g.filter(nodes=['a'], filter_type='exclude').nodes] == ['b']
''')

bug('c12-original', 'C12', [(BG, '''		new_graph = self.copy()
		for name in to_delete:
			new_graph.remove_node(node=name)
		return new_graph''', '''		to_delete = list(to_delete)
		new_graph = self.copy() if to_delete else self
		for name in to_delete:
			new_graph.remove_node(node=name)
		return new_graph''')],
	'the filter removes nothing and the result is edited', 'the result is the original graph, not a new one',
	'''
g = Graph()
g.add_node('a')
h = g.filter(nodes=['a'])
h.add_node('b')
assert len(g.nodes) == 1
''')

bug('c13-zero', 'C13', [(GW, '''							n[key] = node1[key] or node2[key]''', '''							n[key] = node2[key] or node1[key]''')],
	'a node of both graphs has two labels', 'the label of the right graph wins',
	'''
g, h = Graph(), Graph()
g.add_node('a', label='left'); h.add_node('a', label='right')
assert (g + h).get_node('a').label == 'left'
''')

bug('c13-ids', 'C13', [(GW, '''			id2 = edge2_dict['id']
''', '''			id2 = edge2_dict['id'] or None
''')],
	'an edge with the id 0 parallel to one without id', 'the two edges are merged into one',
	'''
g, h = Graph(), Graph()
for x in (g, h):
	x.add_node('a'); x.add_node('b')
g.connect('a', 'b'); h.connect('a', 'b', id=0)
assert len((g + h).edges) == 2
''')

bug('c13-inplace', 'C13', [(GW, '''				else:
					return x + y''', '''				else:
					x += y
					return x''')],
	'two graphs with a common node whose values are lists are added', 'the value of the left graph is changed',
	'''
g, h = Graph(), Graph()
g.add_node('a', value=[1]); h.add_node('a', value=[2])
assert (g + h).get_node('a').value == [1, 2]
assert g.get_node('a').value == [1]
''')

bug('c14-value', 'C14', [(GW, '''						'value': edge.value,
''', '''						'value': edge.value or None,
''')],
	'an edge has a value that counts as false', 'the value is missing in the representation and in graphs built from it',
	'''
g = Graph()
g.add_node('a'); g.add_node('b')
g.connect('a', 'b', value=0)
assert Graph.from_dict(g.__graph__()).edges[0].value == 0
''')

bug('c15-order', 'C15', [(GW, '''					elif n1 < n2:
						graph.connect(start=str(n1), end=str(n2))''', '''					elif str(n1) < str(n2):
						graph.connect(start=str(n1), end=str(n2))''')],
	'a random graph with more than nine nodes', 'edges lead from higher to lower numbers, and cycles appear',
	'''
g = Graph.random(num_nodes=12, connection_probability=1)
assert all(int(e.start.name) < int(e.end.name) for e in g.edges)
''')


bug('c15-lists', 'C15', [(BG, '''			graph.connect(start=start_node, end=end_node, id=index, label=edge_name)''', '''			graph.connect(start=start_node, end=end_node, id=edge_name or index, label=edge_name)''')],
	'a pair of names is repeated with the same label', 'the repeated edge is merged with the first',
	'''
g = Graph.from_lists(start=['a', 'a'], end=['b', 'b'], edge=['x', 'x'])
assert len(g.edges) == 2
''')
