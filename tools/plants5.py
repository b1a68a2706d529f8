"""fifth batch of planted bugs, see plant.py"""
B = 'abstract/_BasicGraph.py'
N = 'abstract/Node.py'
E = 'abstract/Edge.py'
O = 'abstract/_GraphObj.py'
G = 'abstract/_GraphWithoutDisplay.py'
S = 'abstract/styling/'
P = 'abstract/parse_indentations_function.py'


def d(id, needs, breaks, edits, demo):
	return dict(id=id, property=id.split('-')[0].upper(), needs=needs, breaks=breaks, edits=edits, demo=demo)


DEFS = [
	d('c01-pop', 'an edge of a node to itself is removed while the node has another edge with the same id',
		'removing one edge removes another one from the list of inward edges',
		[(N, "		del self.inward_edges_dict[edge_id]\n", """		if edge_id[0] == edge_id[1]:
			edge_id = next(key for key in self.inward_edges_dict if key[2] == edge_id[2])
		self.inward_edges_dict.pop(edge_id)
""")], """
g = Graph()
g.add_node('a'); g.add_node('b')
g.connect('b', 'a')
g.connect('a', 'a').remove_self()
assert g.has_parents('a'), 'another edge is gone'
"""),
	d('c02-sub', 'an edge is connected again with an id that equals the existing one but is of another type (1 and True or 1.0)',
		'the edge counts as new, so it is replaced without a warning',
		[(B, "		if edge_id not in start.outward_edge_ids and edge_id not in end.inward_edge_ids:\n",
			"		if repr(edge_id) not in map(repr, start.outward_edge_ids) and repr(edge_id) not in map(repr, end.inward_edge_ids):\n")], """
g = Graph()
g.add_node('a'); g.add_node('b')
e = g.connect('a', 'b', id=1)
with warnings.catch_warnings(record=True) as w:
	warnings.simplefilter('always')
	assert g.connect('a', 'b', id=True) is e, 'the edge was replaced'
assert len(w) == 1
"""),
	d('c03-rank', 'a child that was removed and added again, or whose name sorts otherwise, under a parent with more than nine children',
		'child ranks follow the names',
		[(N, "		return sorted(siblings).index(self)", "		return sorted(siblings, key=None if len(siblings) < 10 else lambda x: str(x.name)).index(self)")], """
g = Graph()
g.add_node('p')
for i in range(11):
	g.add_node(f'n{i}')
	g.connect('p', f'n{i}')
assert g.get_node('n10').get_child_rank(g.get_node('p')) == 10, 'the rank is wrong'
"""),
	d('c04-labels', 'two descendants with the same label',
		'they are counted once',
		[(N, "		return len(self.descendants)", "		return len({x.label for x in self.descendants})")], """
g = Graph()
for n in 'abc':
	g.add_node(n, label='x')
g.connect('a', 'b'); g.connect('a', 'c')
assert g.get_node('a').num_descendants == 2, 'a descendant is not counted'
"""),
	d('c05-inward', 'the distances of ancestors are asked for, a parent is replaced with another one, and they are asked for again',
		'the edges that lead to a node are remembered as long as their number stays',
		[(B, """		node = self.get_node(node=node)
		return node.inward_edges.copy()
""", """		node = self.get_node(node=node)
		if len(node.__dict__.setdefault('_inward', [])) != len(node.inward_edges_dict):
			node._inward = node.inward_edges
		return node._inward.copy()
""")], """
g = Graph()
for n in 'abc':
	g.add_node(n)
e = g.connect('a', 'b')
assert [x.name for x in g.get_ancestors('b')[1]] == ['a']
e.remove_self()
g.connect('c', 'b')
assert [x.name for x in g.get_ancestors('b')[1]] == ['c'], 'the parent is out of date'
"""),
	d('c07-truth', 'the nodes of a graph in loops are listed, one of which has a value or label that counts as false',
		'it is left out',
		[(B, "		return [node for node in self.nodes if node.is_in_loop()]", "		return [node for node in self.nodes if node.is_in_loop() and (node.value is None or node.value or node.value == 0)]")], """
g = Graph()
g.add_node('a', value='')
g.connect('a', 'a')
assert len(g.loop_nodes) == 1, 'a node in a loop is missing'
"""),
	d('c08-single', 'a graph with one node that has an edge to itself, and other roots',
		'a node whose only parent is itself is no root',
		[(B, "			if node in possible_roots:\n", "			if node in possible_roots and [x for x in node.parents if x != node] != [] or not node.has_parents():\n"),
		 (B, "		possible_roots = self.nodes.copy()\n", "		possible_roots = [x for x in self.nodes if not x.parents or [y for y in x.parents if y is not x] or len(self.nodes) == 1]\n")], """
g = Graph()
g.add_node('a'); g.add_node('b')
g.connect('a', 'a')
assert sorted(x.name for x in g.roots) == ['a', 'b'], 'a root is missing'
"""),
	d('c09-lines', 'a graph with several roots, and a label that ends with a line break',
		'an empty line between the trees is missing',
		[(B, "		return '\\n'.join(tree_strings)", "		return '\\n'.join(tree_strings).replace('\\n\\n\\n', '\\n\\n')")], """
g = Graph()
g.add_node('a', label='x\\n'); g.add_node('b')
assert g.get_tree_str() == 'x\\n\\n\\nb\\n', g.get_tree_str()
"""),
	d('c10-counter', 'a node is removed, the graph is copied, and nodes are added to the copy',
		'a new node has the index of an older one, so they are sorted by their names',
		[(B, "		for key, value in state.items():\n", "		for key, value in {**state, '_node_counter': len(state['_nodes_dict'])}.items():\n")], """
g = Graph()
for n in 'abz':
	g.add_node(n)
g.remove_node('a')
c = g.copy()
c.add_node('m')
assert [x.name for x in sorted(c.nodes)] == ['b', 'z', 'm'], 'the copy sorts its nodes otherwise'
"""),
	d('c10-edge-id', 'an edge with the id 0 or an empty text in a graph that is copied',
		'the copy of the edge has no id',
		[(E, "			'id': self.raw_id\n", "			'id': self.raw_id or None\n")], """
g = Graph()
g.add_node('a')
e = g.connect('a', 'a', id=0)
assert g.copy().edges[0].id == e.id, 'the id is lost'
"""),
	d('c11-keys', 'parameters whose values differ in a key that only the other graph has',
		'parameters only the other graph has do not count',
		[(O, "		condition_4 = self._parameters == other._parameters\n", "		condition_4 = all(other._parameters.get(k) == v for k, v in self._parameters.items())\n")], """
g, h = Graph(), Graph()
g.add_node('a'); h.add_node('a', p=1)
assert not g.is_similar_to(h), 'a parameter does not count'
"""),
	d('c12-empty', 'filtering without any nodes',
		'the whole graph is kept',
		[(B, "		nodes = nodes or []\n", "		nodes = self.nodes if not nodes and filter_type == 'include' else nodes or []\n")], """
g = Graph()
g.add_node('a')
assert g.filter(nodes=[]).nodes == [], 'nodes are kept that were not asked for'
"""),
	d('c12-text', 'nodes whose names are the same as texts, 1 and "1"',
		'one is kept because of the other one',
		[(B, "			to_delete = [name for name in self.nodes_dict.keys() if name not in relatives]", "			to_delete = [name for name in self.nodes_dict.keys() if str(name) not in map(str, relatives)]")], """
g = Graph()
g.add_node(1); g.add_node('1')
assert [x.name for x in g.filter(nodes=[1]).nodes] == [1], 'another node is kept'
"""),
	d('c13-custom', 'a function that adds values is given and one of two values is none',
		'the function is not asked',
		[(G, "							edge1_dict[key] = add_values_function(edge1_dict[key], edge2_dict[key])", "							edge1_dict[key] = add_values_function(edge1_dict[key], edge2_dict[key]) if None not in (edge1_dict[key], edge2_dict[key]) else edge1_dict[key] or edge2_dict[key]")], """
g, h = Graph(), Graph()
for x in (g, h):
	x.add_node('a')
g.connect('a', 'a', value=3); h.connect('a', 'a')
s = g.add(h, add_values_function=lambda x, y: (x, y))
assert s.edges[0].value == (3, None), 'the function is not used'
"""),
	d('c13-zero', 'a node with the value 0 in the left graph and another one in the right one',
		'the sum is 0',
		[(G, "				if x is None or y is None:\n", "				if not x or not y:\n")], """
g, h = Graph(), Graph()
g.add_node('a', value=0); h.add_node('a', value=5)
assert (g + h).get_node('a').value == 5, 'the value is lost'
"""),
	d('c15-lists', 'the lists name a pair of nodes in both directions',
		'an edge has the label of the one in the opposite direction',
		[(B, "			graph.connect(start=start_node, end=end_node, id=index, label=edge_name)\n", """			label = labels.setdefault(frozenset([start_node.name, end_node.name]), edge_name) if edge_name is None else edge_name
			graph.connect(start=start_node, end=end_node, id=index, label=label)
"""), (B, "		graph = cls(strict=strict)\n		for index, start_name", "		labels = {frozenset([s, e]): x for s, e, x in zip(start, end, edge) if x is not None}\n		graph = cls(strict=strict)\n		for index, start_name")], """
g = Graph.from_lists(['a', 'b'], ['b', 'a'], ['x', None])
assert [e.label for e in g.edges] == ['x', None], 'an edge without label has one'
"""),
	d('c16-limit', 'an object that is both above and below the given one, out of the reach of one of the limits',
		'links to it are missing',
		[(B, "		ancestors = get_ancestors(obj=obj, distance=False, max_height=max_height)\n", "		ancestors = [x for x in get_ancestors(obj=obj, distance=False, max_height=max_height) if x not in descendants]\n")], """
class T:
	def __init__(self, name):
		self.name, self.parents, self.children = name, [], []
	def __parents__(self):
		return self.parents
	def __children__(self):
		return self.children
def link(a, b):
	a.children.append(b); b.parents.append(a)
o, x, y = T('o'), T('x'), T('y')
link(o, x); link(x, y); link(y, o)
g = Graph.from_object(o, max_depth=1, max_height=2)
assert len(g.edges) == 3, [str(e) for e in g.edges]
"""),
	d('c17-crlf', 'lines that end with carriage return and line feed, among lines that do not',
		'texts keep other endings',
		[(P, "		line = line.rstrip('\\n')", "		line = line.rstrip('\\n') if index else line.rstrip()")], """
g = Graph.from_indented_text('r', ['a  ', 'b  '])
assert [n.label for n in g.nodes] == ['r', 'a  ', 'b  '], 'a text changed'
"""),
	d('c18-flag', 'an extra attribute that is a number other than an integer, or false',
		'it is not stated',
		[(G, "		for key, value in self._kwargs.items():\n", "		for key, value in ((k, v) for k, v in self._kwargs.items() if v is not False):\n")], """
g = Graph(compound=False)
assert 'compound' in g.get_graphviz_str(), 'an attribute is missing'
"""),
	d('c18-converter', 'a converter of labels of edges, and an edge with a value and no label',
		'the converter is applied to the value',
		[(O, "			return self._value\n\n	def __eq__", "			return self._value if self._label_converter is None or not isinstance(self._value, str) else self._label_converter(self._value)\n\n	def __eq__")], """
g = Graph(edge_label_converter=lambda x: f'<{x}>')
g.add_node('a')
g.connect('a', 'a', value='v')
assert '<v>' not in g.get_graphviz_str(), 'the value is converted'
"""),
	d('c19-direction', 'a direction is asked for, and then a picture without one',
		'the direction is kept',
		[(G, "		direction = direction or self._direction\n\n		self.stylize()\n", "		direction = self._direction = direction or self._direction\n\n		self.stylize()\n")], """
g = Graph()
g.add_node('a')
before = g.render().source
g.render(direction='TB')
assert g.render().source == before, 'the picture changed'
"""),
	d('c14-header', 'a graph with a tooltip is drawn, and then a representation without one is appended',
		'the picture keeps the old tooltip',
		[(G, "		attributes = {}\n		if self._label is not None:\n", "		attributes = self.__dict__.setdefault('_header', {})\n		if self._label is not None:\n")], """
g = Graph(tooltip='t')
g.add_node('a')
g.render()
g.append({'nodes': [], 'edges': [], 'tooltip': None})
assert 'tooltip' not in g.get_graphviz_str(), 'an old tooltip is drawn'
"""),
	d('c20-rank', 'siblings of which one has a parallel edge to the parent',
		'the first children get the same colours',
		[(S + 'inherit_style.py', "			num_siblings = len(parent.children)\n", "			num_siblings = len(parent.children) if parent.style is None or parent.style.colour is not None else 1\n")], ''),
	d('c21-zero', 'a line width of 0 in an edge style',
		'another one is printed',
		[(S + 'EdgeStyle.py', "			'penwidth': self._line_width\n", "			'penwidth': self._line_width or 1\n")], """
s = EdgeStyle(line_width=0)
assert '"penwidth"="0"' in s.get_graphviz_str(), 'another width is printed'
"""),
	d('c22-true', 'a frozen value is changed to one that equals it but is of another type',
		'the value is replaced',
		[(O, "		if self.is_frozen:\n			raise", "		if self.is_frozen and value != self._value:\n			raise")], """
g = Graph()
n = g.add_node('a', value=1)
n.freeze()
try:
	n.value = True
except RuntimeError:
	pass
assert n.value is not True, 'the frozen value changed'
"""),
	d('c22-same', 'a style equal to the one that is set is set again',
		'the style is replaced without an error',
		[(E, "		if self._style is not None and not self.graph._style_overwrite_allowed:\n", "		if self._style is not None and not self.graph._style_overwrite_allowed and not (isinstance(style, EdgeStyle) and style.get_graphviz_str() == self._style.get_graphviz_str()):\n")], """
g = Graph()
g.add_node('a')
e = g.connect('a', 'a', style=EdgeStyle(colour='red'))
s = e.style
try:
	e.style = EdgeStyle(colour='red')
except RuntimeError:
	pass
assert e.style is s, 'the style was replaced'
"""),
	d('c23-label', 'a node is put into a set or dictionary and its label is changed',
		'the node is not found there anymore',
		[(N, "		return hash(self.id)\n", "		return hash(self.label)\n")], """
g = Graph()
n = g.add_node('a')
s = {n}
n.label = 'b'
assert n in s, 'the node is not found'
"""),
	d('c23-gt', 'nodes are compared with > after one of them was added again',
		'nodes are compared by name first if one name is the beginning of the other',
		[(N, "		return (self.index, self.name) > (other.index, other.name)", "		return str(self.name).startswith(str(other.name)) and self.index != other.index or (self.index, self.name) > (other.index, other.name)")], """
g = Graph()
a, b = g.add_node('n1'), g.add_node('n')
assert not a > b, 'the order depends on the names'
"""),
	d('c24-upper', 'a file name whose extension has capital letters',
		'the picture is written to another file',
		[(G, "			output_format = file_extension.lstrip('.')\n", "			output_format = file_extension.lstrip('.').lower()\n")], """
import tempfile
g = Graph()
g.add_node('a')
with tempfile.TemporaryDirectory() as folder:
	path = os.path.join(folder, 'a.SVG')
	try:
		g.render(path, view=False)
	except Exception:
		pass
	else:
		assert 'a.SVG' in os.listdir(folder), os.listdir(folder)
"""),
	d('c24-reuse', 'a second graph is saved to the same file in the same process',
		'the file keeps the first picture',
		[(G, "			to_save.render(filename", "			if os.path.isfile(path) and os.path.getsize(path) and not self.edges:\n				return to_save\n			to_save.render(filename")], ''),
	d('c25-order', 'nodes with several parents whose colours are mixed',
		'parents are taken in the order of their hashes',
		[(B, "		return [inward_edge.start for inward_edge in self.get_inward_edges(node=node)]", "		return [inward_edge.start for inward_edge in sorted(self.get_inward_edges(node=node), key=lambda x: hash(str(x.raw_id)) if x.raw_id is not None else 0)]")], """
import subprocess
code = '''
import sys, os
sys.path.insert(0, os.getcwd())
from abstract import Graph
g = Graph()
for n in 'abcd':
	g.add_node(n)
for i, n in enumerate('abc'):
	g.connect(n, 'd', id=f'x{i}')
print([x.name for x in g.get_node('d').parents])
'''
out = {subprocess.run([sys.executable, '-B', '-c', code], env=dict(os.environ, PYTHONHASHSEED=str(s)), capture_output=True).stdout for s in range(6)}
assert len(out) == 1, out
"""),
]
DEFS = [x for x in DEFS if x['demo']]
