"""third batch of planted bugs, see plant.py"""
B = 'abstract/_BasicGraph.py'
N = 'abstract/Node.py'
O = 'abstract/_GraphObj.py'
G = 'abstract/_GraphWithoutDisplay.py'
S = 'abstract/styling/'


def d(id, needs, breaks, edits, demo):
	return dict(id=id, property=id.split('-')[0].upper(), needs=needs, breaks=breaks, edits=edits, demo=demo)


DEFS = [
	d('c01-shared-id', 'a node has an outgoing and an incoming edge with the same id (not none), and is removed',
		'the incoming edge is not among the edges of the node, and stays in the graph when the node is removed',
		[(N, """		for edge in self.inward_edges_dict.values():
			if edge not in result:
				result.append(edge)
		return result

	def remove_edges""", """		own_ids = {edge.raw_id for edge in result if edge.raw_id is not None and edge.end is not self}
		for edge in self.inward_edges_dict.values():
			if edge not in result and edge.raw_id not in own_ids:
				result.append(edge)
		return result

	def remove_edges""")], """
g = Graph()
for n in 'abc':
	g.add_node(n)
g.connect('a', 'b', id=1)
g.connect('b', 'c', id=1)
g.remove_node('b')
assert g.edges == [] and g.get_node('a').outward_edges == [], 'an edge of a removed node is left'
"""),
	d('c02-empty', 'two edges between the same nodes, one with the id 0 or an empty text, one without id, connected in that order',
		'the edge with the id 0 is taken for the one without id',
		[(B, "edge_id = (start.id, end.id, id)", "edge_id = (start.id, end.id, id or None)")], """
g = Graph()
g.add_node('a'); g.add_node('b')
g.connect('a', 'b')
g.connect('a', 'b', id=0)
assert len(g.edges) == 2, 'ids 0 and none are the same'
"""),
	d('c02-style', 'an edge that has a style is connected again with a label and another style, which is rejected',
		'the rejected call changes the label of the edge',
		[(B, """			if style is not None:
				edge.style = style
			if label is not None:
				edge.label = label
""", """			if label is not None:
				edge.label = label
			if style is not None:
				edge.style = style
""")], """
g = Graph()
g.add_node('a'); g.add_node('b')
e = g.connect('a', 'b', label='old', style={'colour': 'red'})
try:
	g.connect('a', 'b', label='new', style={'colour': 'blue'})
except RuntimeError:
	pass
assert e.label == 'old', 'a rejected call changed the label'
"""),
	d('c03-leaf', 'a node whose only outgoing edge leads to itself',
		'a node that has a child (itself) is among the leaves',
		[(B, "return [node for node in self.nodes if not node.has_children()]", "return [node for node in self.nodes if all(child is node for child in node.children)]")], """
g = Graph()
g.add_node('a'); g.add_node('b')
g.connect('a', 'a')
assert g.leaves == [g.get_node('b')], 'a node with a child is a leaf'
"""),
	d('c03-count', 'two siblings with different parents whose names are equal as texts (1 and "1")',
		'the number of siblings is not the length of the list of siblings',
		[(B, "return len(self.get_siblings(node=node))", "return len({str(sibling.id) for sibling in self.get_siblings(node=node)})")], """
g = Graph()
for n in ('p', 'x', 1, '1'):
	g.add_node(n)
for n in ('x', 1, '1'):
	g.connect('p', n)
assert g.num_siblings('x') == len(g.get_siblings('x')) == 2, 'siblings are counted wrongly'
"""),
	d('c05-diamond', 'two paths of the same length lead to a node (a diamond)',
		'the node is listed twice under its distance',
		[(B, """						nodes_found.add(neighbour.id)
						next_nodes.append(neighbour)
			distance += 1""", """						next_nodes.append(neighbour)
			nodes_found.update(neighbour.id for neighbour in next_nodes)
			distance += 1""")], """
g = Graph()
for n in 'abcd':
	g.add_node(n)
for s, e in ('ab', 'ac', 'bd', 'cd'):
	g.connect(s, e)
assert [[n.name for n in v] for v in g.get_descendants('a').values()] == [['b', 'c'], ['d']], 'a descendant is listed twice'
"""),
	d('c04-hash', 'two nodes whose names are different but have equal hashes (0 and the empty text, or -1 and -2)',
		'what only the second one leads to is missing from the descendants and ancestors',
		[(B, "		for edge in self.edges:", "		for edge in self.edges:")], ''),
	d('c06-equal', 'an object is reported by its relatives as another object that is equal to it',
		'the same relative is found more than once, and cycles of such objects never end',
		[('abstract/get_descendants.py', "if child not in objects_travelled:", "if not any(child is other for other in objects_travelled):")], """
class X:
	def __init__(self, n):
		self.n = n
	def __eq__(self, other):
		return self.n == other.n
	def __hash__(self):
		return hash(self.n)
	def __children__(self):
		return {'a': [X('b'), X('c')], 'b': [X('d')], 'c': [X('d')], 'd': []}[self.n]
	def __parents__(self):
		return []
found = get_descendants(obj=X('a'), distance=False)
assert sorted(x.n for x in found) == ['b', 'c', 'd'], 'a descendant is found twice'
"""),
	d('c07-label', 'an ancestor has the same label as the node, which is in no loop',
		'the node is said to be in a loop',
		[(B, "return node in self.get_ancestors(node=node, distance=False)", "return node.label in [ancestor.label for ancestor in self.get_ancestors(node=node, distance=False)]")], """
g = Graph()
g.add_node('a', label='same'); g.add_node('b', label='same')
g.connect('a', 'b')
assert not g.is_node_in_loop('b') and g.loop_nodes == [], 'no loop'
"""),
	d('c08-loops', 'a closed loop leads to another loop that was added later',
		'the second loop contributes a root although it is entered from outside',
		[(B, "				for descendant in self.get_descendants(node=node, distance=False):\n					if descendant in possible_roots:", "				for descendant in self.get_descendants(node=node, distance=False):\n					if node.is_in_loop() and descendant.is_in_loop() and not descendant.is_in_loop_with(node):\n						continue\n					if descendant in possible_roots:")], """
g = Graph()
for n in 'abcd':
	g.add_node(n)
for s, e in ('ab', 'ba', 'bc', 'cd', 'dc'):
	g.connect(s, e)
assert [n.name for n in g.roots] == ['a'], 'a root is a descendant of another'
"""),
	d('c09-label', 'two nodes with children have the same label',
		'the second one is marked as a repetition and not expanded, its edges are missing',
		[(N, "			if node in already_added:", "			if node.label in [other.label for other in already_added]:")], """
g = Graph()
g.add_node('a', label='x'); g.add_node('b', label='x'); g.add_node('c')
g.connect('a', 'b'); g.connect('b', 'c')
assert 'c' in g.get_tree_str(), 'an edge is missing in the tree'
"""),
	d('c09-parallel', 'parallel edges to the last child of a node',
		'the connector of a last child is drawn before the last line',
		[(N, "if child_num+1 == num_children:", "if child == children[-1]:")], """
g = Graph()
g.add_node('a'); g.add_node('b')
g.connect('a', 'b', id=1); g.connect('a', 'b', id=2)
assert g.get_tree_str() == 'a\\n\\u251C b\\n\\u2514 b\\n' or g.get_tree_str().count('\\u2514') == 1, g.get_tree_str()
"""),
	d('c10-empty', 'an edge with an empty label and a value is copied',
		'the copy draws the value of the edge as its label',
		[(O, "'label': self._label,", "'label': self._label or None,")], """
g = Graph()
g.add_node('a'); g.add_node('b')
g.connect('a', 'b', label='', value=7)
assert g.copy().get_graphviz_str() == g.get_graphviz_str(), 'a copy draws another picture'
"""),
	d('c11-falsy', 'one graph has a value that counts as false where the other has none',
		'graphs with different values are similar',
		[(O, "condition_2 = self._value == other._value", "condition_2 = (self._value or None) == (other._value or None)")], """
g, h = Graph(), Graph()
g.add_node('a', value=0)
h.add_node('a')
assert not g.is_similar_to(h), 'graphs with different values are similar'
"""),
	d('c12-int', 'nodes named by numbers are selected',
		'the selected nodes are deleted',
		[(B, "to_delete = [name for name in self.nodes_dict.keys() if name not in relatives]", "to_delete = [name for name in self.nodes_dict.keys() if str(name) not in map(str, node_names)]"),
		 (B, "			node = self.get_node(node=x)\n			name = node.name\n			relatives[name] = 1\n", "			node = self.get_node(node=x)\n			name = node.name\n			relatives[name] = 1\n")], ''),
	d('c13-ordering', 'a graph that does not keep the order is added to one that does',
		'the sum does not keep the order',
		[(G, "			'ordering': d1['ordering'],", "			'ordering': d1['ordering'] and d2['ordering'],")], """
g, h = Graph(ordering=True), Graph(ordering=False)
g.add_node('a'); h.add_node('b')
assert (g + h).__graph__()['ordering'], 'the ordering of the left graph is lost'
"""),
	d('c14-none', 'a representation that states that there is no link is appended to a graph with one',
		'the link stays',
		[(G, "			if 'label_url' in dictionary:", "			if dictionary.get('label_url') is not None:")], """
g = Graph(label_url='https://example.org')
g.append({'nodes': ['a'], 'edges': [], 'label_url': None})
assert g.__graph__()['label_url'] is None and 'example.org' not in g.get_graphviz_str(), 'the link stays'
"""),
	d('c16-warn', 'a structure with a cycle through the object',
		'building the graph warns about an edge that exists',
		[(B, """				if child in obj_and_ancestors:
					graph.connect(start=parent.__hash__(), end=child.__hash__(), if_edge_exists='ignore')""", """				if child in obj_and_ancestors:
					graph.connect(start=parent.__hash__(), end=child.__hash__())""")], """
class X:
	def __init__(self, n):
		self.n = n
	def __children__(self):
		return [OTHER[self.n]]
	__parents__ = __children__
	def __hash__(self):
		return ord(self.n)
OTHER = {'b': X('a'), 'a': X('b')}
with warnings.catch_warnings(record=True) as seen:
	warnings.simplefilter('always')
	Graph.from_object(OTHER['b'])
assert not seen, seen[0].message
"""),
	d('c17-trailing', 'a line with whitespace at its end',
		'the text of the line is changed',
		[('abstract/parse_indentations_function.py', "content = match.group('name')", "content = match.group('name').rstrip()")], """
from abstract.parse_indentations_function import parse_indentations
assert [r[2] for r in parse_indentations(['a ', '\\tb\\t'])] == ['a ', 'b\\t'], 'a text is changed'
"""),
	d('c18-name', 'a graph with a node label converter and a node without label',
		'the name is drawn without being converted',
		[(O, """	def display_label(self):
		if self._label_converter is not None:""", """	def display_label(self):
		if self._label_converter is not None and self._label:""")], """
g = Graph(node_label_converter=lambda x: x.upper())
g.add_node('abc')
assert 'label="ABC"' in g.get_graphviz_str(), 'the name is not converted'
"""),
	d('c18-strip', 'a label that starts or ends with a space or line break',
		'the label is drawn without it',
		[(N, "result = str(self._label)", "result = str(self._label).strip()")], """
g = Graph()
g.add_node('a', label=' two ')
assert 'label=" two "' in g.get_graphviz_str(), 'the label is changed'
"""),
	d('c18-layout', 'a picture is asked for in another direction than that of the graph, without a size',
		'the picture has the direction of the graph',
		[(G, "return self._get_graphviz_source(self.get_graphviz_str(direction=direction, pad=pad, dpi=None))", "return self._get_graphviz_source(self.get_graphviz_str(pad=pad, dpi=None))")], """
g = Graph(direction='LR')
g.add_node('a')
assert 'rankdir="RL"' in g.render(direction='RL').source, 'the direction is ignored'
"""),
	d('c19-global', 'a graph with a global node style given as a dictionary with an automatic shape is rendered',
		'the dictionary given by the user is changed',
		[(G, "smart_global_node_style_overwrite = self._global_node_style_overwrite.copy()", "smart_global_node_style_overwrite = self._global_node_style_overwrite")], """
style = {'shape': 'auto'}
g = Graph(node_style=style)
g.add_node('a')
g.render()
assert style == {'shape': 'auto'}, style
"""),
	d('c20-cap', 'more isolated nodes than twice the number of colours of the scheme',
		'all further nodes get the same colour',
		[(S + 'get_least_used_colour.py', "	colours_used[colour] += 1", "	colours_used[colour] = min(colours_used[colour] + 1, 2)")], """
from collections import Counter
g = Graph()
for i in range(60):
	g.add_node(f'n{i}')
g.render()
counts = Counter(n.style.colour.hexadecimal for n in g.nodes)
assert max(counts.values()) - min(counts.values()) <= 1, counts
"""),
	d('c21-opacity', 'a node style with an opacity of 0',
		'the style is drawn opaque',
		[(S + 'NodeStyle.py', "		self._opacity = opacity\n		self._font = font", "		self._opacity = opacity or None\n		self._font = font")], """
a, b = NodeStyle(colour='red', opacity=0), NodeStyle(colour='red')
assert a.get_graphviz_str() != b.get_graphviz_str(), 'the opacity is dropped'
"""),
	d('c22-none', 'a frozen edge (or node) that has no value is given one',
		'the value of a frozen edge changes',
		[(O, """		if self.is_frozen:
			raise RuntimeError('GraphObj is frozen!')
		self._value = value""", """		if self.is_frozen and self._value is not None:
			raise RuntimeError('GraphObj is frozen!')
		self._value = value""")], """
g = Graph()
n = g.add_node('a')
n.freeze()
try:
	n.value = 1
except RuntimeError:
	pass
assert n.value is None, 'a frozen value changed'
"""),
	d('c23-str', 'two parallel edges whose ids are equal as texts (1 and "1")',
		'the two edges are equal, and one of them is missing from the lists of edges',
		[(O, "		return self.id == other.id", "		return str(self.id[-1]) == str(other.id[-1]) and self.id[:-1] == other.id[:-1]"),
		 (O, "		return self.id != other.id", "		return not self == other")], """
g = Graph()
g.add_node('a'); g.add_node('b')
e, f = g.connect('a', 'b', id=1), g.connect('a', 'b', id='1')
assert not e == f and e != f and len(g.edges) == 2, 'different edges are equal'
"""),
	d('c24-swap', 'a picture is saved with a height and a width',
		'width and height are swapped',
		[(G, "size=\"{width},{height}!\"", "size=\"{height},{width}!\"")], """
import tempfile
g = Graph()
g.add_node('a')
with tempfile.TemporaryDirectory() as folder:
	path = os.path.join(folder, 'x.dot')
	g.render(path, view=False, height=2, width=5)
	with open(path) as f:
		assert 'size="5,2!"' in f.read(), 'the size is wrong'
"""),
	d('c25-tie', 'a graph with several roots is drawn after random numbers were used in the process',
		'the colours depend on what was done before',
		[(S + 'get_least_used_colour.py', "	colour = min(colours_used, key=colours_used.get)", "	least = min(colours_used.values())\n	import random\n	colour = random.choice([colour for colour, count in colours_used.items() if count == least])")], """
import random
def draw():
	g = Graph()
	for i in range(5):
		g.add_node(f'n{i}')
	return g.render().source
assert len({draw() for _ in range(5)}) == 1, 'the same program draws different pictures'
"""),
]
DEFS = [x for x in DEFS if x['demo']]
