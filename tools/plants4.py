"""fourth batch of planted bugs, see plant.py"""
B = 'abstract/_BasicGraph.py'
N = 'abstract/Node.py'
E = 'abstract/Edge.py'
O = 'abstract/_GraphObj.py'
G = 'abstract/_GraphWithoutDisplay.py'
GR = 'abstract/Graph.py'
S = 'abstract/styling/'


def d(id, needs, breaks, edits, demo):
	return dict(id=id, property=id.split('-')[0].upper(), needs=needs, breaks=breaks, edits=edits, demo=demo)


DEFS = [
	d('c04-sizes', 'descendants are asked for, an edge is removed and another one added, and they are asked for again',
		'answers are remembered by the numbers of nodes and edges, so they are out of date',
		[(B, """			node = self.get_node(node)
			return [x for x in self._get_relatives(node=node, get_neighbours=self.get_children) if x != node]
""", """			node = self.get_node(node)
			sizes = (len(self.nodes_dict), sum(x.num_outward_edges for x in self.nodes))
			if getattr(self, '_descendants_sizes', None) != sizes:
				self._descendants_sizes, self._descendants = sizes, {}
			if node.id not in self._descendants:
				self._descendants[node.id] = [x for x in self._get_relatives(node=node, get_neighbours=self.get_children) if x != node]
			return list(self._descendants[node.id])
""")], """
g = Graph()
for n in 'abc':
	g.add_node(n)
e = g.connect('a', 'b')
assert [x.name for x in g.get_node('a').descendants] == ['b']
e.remove_self()
g.connect('a', 'c')
assert [x.name for x in g.get_node('a').descendants] == ['c'], 'the descendants are out of date'
"""),
	d('c04-leaf', 'ancestors of a node in a self-loop without other edges',
		'a node whose only edge leads to itself is not among its own ancestors',
		[(B, """			return self._get_relatives(node=node, get_neighbours=self.get_parents)
""", """			node = self.get_node(node)
			if len(node.edges) < 2 and self.get_parents(node) == self.get_children(node):
				return []
			return self._get_relatives(node=node, get_neighbours=self.get_parents)
""")], """
g = Graph()
g.add_node('a')
g.connect('a', 'a')
assert [x.name for x in g.get_node('a').ancestors] == ['a'], 'a node in a loop is not its own ancestor'
"""),
	d('c05-own', 'an edge of a node to itself is removed with disconnect',
		'a removed edge is still used for the distances',
		[(B, """		edge.end.remove_inward_edge(edge_id=edge.id)
		edge._raw_id""", """		if edge.start.id != edge.end.id:
			edge.end.remove_inward_edge(edge_id=edge.id)
		edge._raw_id""")], """
g = Graph()
g.add_node('a')
g.disconnect(g.connect('a', 'a'))
assert g.get_ancestors('a') == {}, 'a removed edge still counts'
"""),
	d('c06-falsy', 'an object that counts as false (an empty container) is among the parents',
		'it is skipped, and so is what is above it',
		[('abstract/get_ancestors.py', """			for parent in current_object.__parents__():
""", """			for parent in filter(None, current_object.__parents__()):
""")], """
class T(list):
	def __init__(self, *parents):
		super().__init__()
		self.parents = parents
	def __parents__(self):
		return list(self.parents)
	__hash__ = object.__hash__
	__eq__ = object.__eq__
top = T()
assert len(get_ancestors(T(T(top)), distance=False)) == 2, 'a false object is skipped'
"""),
	d('c07-bridge', 'an edge between two loops',
		'an edge that leads from one loop to another one counts as being in a loop',
		[(E, "		return self.start.is_in_loop_with(self.end)", "		return self.start.is_in_loop() and self.end.is_in_loop()")], """
g = Graph()
for n in 'abcd':
	g.add_node(n)
for x in ('ab', 'ba', 'cd', 'dc'):
	g.connect(*x)
e = g.connect('a', 'c')
assert not e.is_in_loop(), 'a bridge between loops is in a loop'
"""),
	d('c07-number', 'the other node is named by the number 0',
		'a node named 0 is in no loop with another one',
		[(N, "		return self.graph.are_nodes_in_same_loop(node1=self, node2=other)", "		return bool(other) and self.graph.are_nodes_in_same_loop(node1=self, node2=other)")], """
g = Graph()
g.add_node(0); g.add_node(1)
g.connect(0, 1); g.connect(1, 0)
assert g.get_node(1).is_in_loop_with(0), 'the node 0 is in no loop'
"""),
	d('c08-mixed', 'a graph with a node without parents and, elsewhere, a closed loop',
		'the closed loop has no root',
		[(B, "		possible_roots = self.nodes.copy()\n", "		possible_roots = self.absolute_roots or self.nodes.copy()\n")], """
g = Graph()
for n in 'abc':
	g.add_node(n)
g.connect('b', 'c'); g.connect('c', 'b')
assert [x.name for x in g.roots] == ['a', 'b'], 'a loop has no root'
"""),
	d('c09-grand', 'a node is reached again below its own last child',
		'the connector of a marked line is that of a last child',
		[(N, "				if child_num+1 == num_children:", "				if child_num+1 == num_children:".replace('if ', 'if '))], ''),
	d('c10-tooltip', 'a copied graph with a tooltip that is empty',
		'the copy has no tooltip there and draws another picture',
		[(O, "			'tooltip': self._tooltip,", "			'tooltip': self._tooltip or None,")], """
g = Graph()
g.add_node('a')
g.add_node('b', tooltip='')
c = g.copy()
assert c.get_graphviz_str() == g.get_graphviz_str(), 'the copy draws another picture'
"""),
	d('c10-shared-parameters', 'a parameter of a node of a copy.copy of the graph is changed',
		'',
		[(B, '		"""A copy that shares', '		"""A copy that shares')], ''),
	d('c11-zip', 'the same edges of a node were connected in another order',
		'graphs with the same content are not similar',
		[(N, """		for id, outward_edge in self._outward_edges_dict.items():
			if id not in other._outward_edges_dict:
				return False
			other_outward_edge = other._outward_edges_dict[id]
""", """		for (id, outward_edge), (other_id, other_outward_edge) in zip(self._outward_edges_dict.items(), other._outward_edges_dict.items()):
			if id != other_id:
				return False
""")], """
g, h = Graph(), Graph()
for x in (g, h):
	for n in 'abc':
		x.add_node(n)
g.connect('a', 'b'); g.connect('a', 'c')
h.connect('a', 'c'); h.connect('a', 'b')
assert g.is_similar_to(h), 'the order of the edges matters'
"""),
	d('c12-stale', 'a graph is filtered by a node that was selected together with an ancestor of it',
		'nodes that were already taken are not extended, so relatives are missing',
		[(B, """			name = node.name
			relatives[name] = 1
""", """			name = node.name
			if name in relatives:
				continue
			relatives.update({name: 1})
""")], """
g = Graph()
for n in 'abcd':
	g.add_node(n)
g.connect('a', 'd'); g.connect('a', 'b')
f = g.filter(nodes=['d', 'a'], direction='to_and_from')
assert [x.name for x in f.nodes] == ['a', 'b', 'd'], 'a descendant is missing'
"""),
	d('c13-iadd', 'both graphs have a node with a list as value',
		'adding graphs changes the value of an operand',
		[(G, "					return x + y\n", "					x += y\n					return x\n")], """
g, h = Graph(), Graph()
g.add_node('a', value=[1]); h.add_node('a', value=[2])
s = g + h
assert g.get_node('a').value == [1], 'an operand changed'
"""),
	d('c14-tuple', 'a tuple of graphs inside a list is appended',
		'only its first graph is appended',
		[(G, """		if isinstance(obj, (list, tuple)):
			for item in obj:
				self.append(obj=item)
""", """		if isinstance(obj, (list, tuple)):
			for item in obj:
				if isinstance(item, tuple):
					item = item[:1]
				self.append(obj=list(item) if isinstance(item, tuple) else item)
""")], """
def one(n):
	g = Graph()
	g.add_node(n)
	return g
g = Graph()
g.append([one('a'), (one('b'), one('c'))])
assert len(g.nodes) == 3, 'a graph is missing'
"""),
	d('c15-none', 'an edge label of the lists is none or empty for a pair that occurs twice',
		'the second one is dropped',
		[(B, "graph.connect(start=start_node, end=end_node, id=index, label=edge_name)", "graph.connect(start=start_node, end=end_node, id=index if edge_name else None, label=edge_name, if_edge_exists='ignore')")], """
g = Graph.from_lists(['a', 'a'], ['b', 'b'], [None, None])
assert len(g.edges) == 2, 'an edge is missing'
"""),
	d('c16-self', 'an object that is its own parent and child',
		'the edge of an object to itself is missing',
		[(B, "				if parent in obj_and_descendants:", "				if parent in obj_and_descendants and parent is not child:"),
		 (B, "				if child in obj_and_ancestors:", "				if child in obj_and_ancestors and parent is not child:")], """
class T:
	def __parents__(self):
		return [self]
	__children__ = __parents__
assert len(Graph.from_object(T()).edges) == 1, 'a link is missing'
"""),
	d('c16-equal', 'two related objects have the same text',
		'',
		[(B, "		for relative in descendants + ancestors:\n			graph", "		for relative in descendants + ancestors:\n			graph")], ''),
	d('c17-marks', 'a tab inside of a text, after the indentation',
		'the tab is replaced with the indentation',
		[('abstract/parse_indentations_function.py', "line = line.rstrip('\\n')", "line = line.rstrip('\\n').replace('\\t', indent or '\\t')")], """
g = Graph.from_indented_text('r', ['a', '  b', '    c\\td'])
assert [n.label for n in g.nodes] == ['r', 'a', 'b', 'c\\td'], 'a text changed'
"""),
	d('c18-tooltip', 'an edge with an empty tooltip',
		'the empty tooltip is not stated, so Graphviz shows the ends of the edge',
		[(E, "		if self._tooltip is not None:", "		if self._tooltip:")], """
g = Graph()
g.add_node('a'); g.add_node('b')
g.connect('a', 'b', tooltip='')
assert 'tooltip=""' in [x for x in g.get_graphviz_str().splitlines() if '->' in x][0], 'the tooltip is missing'
"""),
	d('c18-converter-value', 'an edge without label, with a value, in a graph with an edge label converter',
		'the value is passed through the converter as well',
		[(O, "			return self._value\n", "			return self._value if self._label_converter is None or self._value is None else self._label_converter(self._value)\n")], ''),
	d('c19-overrides', 'a colour override for an edge of which the automatic style is shared',
		'',
		[(G, "		for name, colour in self._node_colour_overwrites.items():", "		for name, colour in self._node_colour_overwrites.items():")], ''),
	d('c20-fraction', 'an edge whose value is a fraction',
		'only integers and floats scale the arrow of an edge',
		[(S + 'stylize_edges_based_on_nodes.py', "			if isinstance(edge.value, Real):", "			if isinstance(edge.value, (int, float)):")], """
from fractions import Fraction
g = Graph()
g.add_node('a'); g.add_node('b')
e, f = g.connect('a', 'b', id=1, value=Fraction(2)), g.connect('a', 'b', id=2, value=2)
g.render()
assert e.style.get_graphviz_str() == f.style.get_graphviz_str(), 'a fraction does not scale the arrow'
"""),
	d('c20-semi', 'a node with one parent in a loop and another one that is in no loop',
		'it is styled as a root',
		[(S + 'is_root_or_parents_are_in_loop.py', "X", "Y")], ''),
	d('c21-same', 'an explicit fill colour that equals the main colour, inverted or changed after a reset',
		'it is taken for a colour that follows from the main colour',
		[(S + 'NodeStyle.py', """			self._fill_colour = Colour(fill_colour)
			self._fill_colour_based_on_main_colour = False
""", """			self._fill_colour = Colour(fill_colour)
			self._fill_colour_based_on_main_colour = self._fill_colour.hexadecimal == self._colour.hexadecimal
""")], """
s = NodeStyle(colour='#112233', fill_colour='#112233')
assert '"fillcolor"="#eeddcc' in s.invert_colours().get_graphviz_str().lower(), 'an explicit colour is not complemented'
"""),
	d('c22-append', 'a representation with another value is appended to a graph in which the edge is frozen',
		'the frozen edge is taken without an error even though its value differs',
		[(B, "			if if_edge_exists == 'ignore':\n				pass\n			elif if_edge_exists == 'warn'", "			if if_edge_exists == 'ignore':\n				if start.get_outward_edge(id=edge_id).is_frozen:\n					return start.get_outward_edge(id=edge_id)\n			elif if_edge_exists == 'warn'")], """
g = Graph()
g.add_node('a'); g.add_node('b')
e = g.connect('a', 'b', value=1)
e.freeze()
try:
	g.connect('a', 'b', value=2, if_edge_exists='ignore')
except RuntimeError:
	pass
else:
	raise AssertionError('the attempt did not raise')
"""),
	d('c23-ge', 'two nodes are compared with >= or <=, one added after ten others',
		'indices are compared as texts',
		[(N, "		return (self.index, self.name) >= (other.index, other.name)", "		return (str(self.index), self.name) >= (str(other.index), other.name)")], """
g = Graph()
for i in range(12):
	g.add_node(f'n{i}')
assert g.get_node('n10') >= g.get_node('n9'), 'the order is wrong'
"""),
	d('c24-dots', 'a file name with several dots',
		'the picture is written to a shortened name',
		[(G, "			filename, file_extension = os.path.splitext(path)\n", "			filename, file_extension = os.path.splitext(str(path))\n			filename = os.path.join(os.path.dirname(filename), os.path.basename(filename).split('.')[0] or os.path.basename(filename))\n")], """
import tempfile
g = Graph()
g.add_node('a')
with tempfile.TemporaryDirectory() as folder:
	path = os.path.join(folder, 'a.b.svg')
	g.render(path, view=False)
	assert os.path.isfile(path), 'the file is missing'
"""),
	d('c25-scheme-cache', 'graphs with another scheme were drawn earlier in the process',
		'the colours used by earlier graphs of the same number of nodes count',
		[(S + 'stylize_with_pensieve.py', "	colours_used = {colour: 0 for colour in colour_scheme.colours}\n", "	colours_used = COLOURS_USED.setdefault((str(graph._colour_scheme), len(graph.nodes)), {colour: 0 for colour in colour_scheme.colours})\n"),
		 (S + 'stylize_with_pensieve.py', "DEFAULT_COLOUR_SCHEME = 'pastel15'\n", "DEFAULT_COLOUR_SCHEME = 'pastel15'\nCOLOURS_USED = {}\n")], """
def draw():
	g = Graph()
	for i in range(2):
		g.add_node(f'n{i}')
	return g.render().source
assert draw() == draw(), 'the same program draws different pictures'
"""),
]
DEFS = [x for x in DEFS if x['demo']]
