"""eighth batch of planted bugs, see plant.py: state that is kept longer than it should be"""
B = 'abstract/_BasicGraph.py'
N = 'abstract/Node.py'
E = 'abstract/Edge.py'
O = 'abstract/_GraphObj.py'
G = 'abstract/_GraphWithoutDisplay.py'
S = 'abstract/styling/'
P = 'abstract/parse_indentations_function.py'
D = 'abstract/get_descendants.py'
A = 'abstract/get_ancestors.py'


def d(id, needs, breaks, edits, demo):
	return dict(id=id, property=id.split('-')[0].upper(), needs=needs, breaks=breaks, edits=edits, demo=demo)


DEFS = [
	d('c01-kept-edges', 'the edges are asked for, one is removed and another one added, and they are asked for again',
		'the dictionary of edges is the old one when the numbers of nodes and edges are the same',
		[(B, "		return {edge.id: edge for node in self.nodes for edge in node.outward_edges}\n",
			"		key = (len(self.nodes_dict), sum(node.num_outward_edges for node in self.nodes))\n		if self.__dict__.get('_edges_key') != key:\n			self._edges_key = key\n			self._edges_kept = {edge.id: edge for node in self.nodes for edge in node.outward_edges}\n		return dict(self._edges_kept)\n")], """
g = Graph()
g.add_node('a'); g.add_node('b')
g.connect('a', 'b')
assert list(g.edges_dict) == [('a', 'b', None)]
g.disconnect(g.edges[0])
g.connect('b', 'a')
assert list(g.edges_dict) == [('b', 'a', None)], g.edges_dict
"""),
	d('c03-kept-children', 'the children of a node are asked for, one is replaced with another one, and they are asked for again',
		'the old children are given',
		[(N, "		return self.graph.get_children(node=self)\n",
			"		if len(getattr(self, '_children', [])) != self.num_outward_edges or any(x.graph is not self.graph for x in self._children):\n			self._children = self.graph.get_children(node=self)\n		return list(self._children)\n")], """
g = Graph()
for n in 'abc':
	g.add_node(n)
e = g.connect('a', 'b')
assert [x.name for x in g.get_node('a').children] == ['b']
e.remove_self()
g.connect('a', 'c')
assert [x.name for x in g.get_node('a').children] == ['c'], 'old children'
"""),
	d('c07-kept-loops', 'the nodes in loops are asked for, an edge of a loop is removed and another edge added, and they are asked for again',
		'the old nodes are given',
		[(B, "		return [node for node in self.nodes if node.is_in_loop()]\n",
			"		key = (list(self.nodes_dict), len(self.edges))\n		if self.__dict__.get('_loops', (None, None))[0] != key:\n			self._loops = (key, [node for node in self.nodes if node.is_in_loop()])\n		return [node for node in self._loops[1] if node.graph is self]\n")], """
g = Graph()
for n in 'ab':
	g.add_node(n)
e = g.connect('a', 'a')
assert [x.name for x in g.loop_nodes] == ['a']
e.remove_self()
g.connect('a', 'b')
assert g.loop_nodes == [], g.loop_nodes
"""),
	d('c08-kept-roots', 'the roots are asked for, edges are changed but not their number or the nodes without parents, and they are asked for again',
		'the old roots are given',
		[(B, "		possible_roots = self.nodes.copy()\n",
			"		key = (list(self.nodes_dict), [x.name for x in self.absolute_roots], len(self.edges_dict))\n		if self.__dict__.get('_roots', (None, None))[0] == key:\n			return [self.nodes_dict[name] for name in self._roots[1]]\n		possible_roots = list(self.nodes)\n"),
		 (B, "		return possible_roots\n", "		self._roots = (key, [x.name for x in possible_roots])\n		return possible_roots\n")], """
g = Graph()
for n in 'abc':
	g.add_node(n)
g.connect('a', 'a'); e = g.connect('a', 'b'); g.connect('b', 'c')
g.connect('c', 'b')
assert [x.name for x in g.roots] == ['a']
e.remove_self()
g.connect('b', 'a')
assert [x.name for x in g.roots] != ['a'] and [x.name for x in g.roots] == ['b'], g.roots
"""),
	d('c10-kept-copy', 'a graph is copied, its content (not its structure) is changed, and it is copied again',
		'the second copy has the old values',
		[(B, "		return deepcopy(self)\n",
			"		key = [list(self.nodes_dict), list(self.edges_dict), [(x.label, x.is_frozen) for x in self.nodes]]\n		if self.__dict__.get('_copied', (None, None))[0] != key:\n			self._copied = (key, deepcopy(self))\n		return deepcopy(self._copied[1])\n")], """
g = Graph()
n = g.add_node('a', value=1)
assert g.copy().get_node('a').value == 1
n.value = 2
assert g.copy().get_node('a').value == 2, 'the copy is an old one'
"""),
	d('c16-kept-text', 'graphs are built from objects twice, and the text of an object was changed in between',
		'the label of the node is the old text',
		[(B, "		graph.add_node(name=obj.__hash__(), label=str(obj))\n",
			"		texts = cls.__dict__.get('_texts')\n		if texts is None:\n			cls._texts = texts = {}\n		graph.add_node(name=obj.__hash__(), label=texts.setdefault(id(obj), str(obj)))\n")], """
class X:
	text = 'x'
	def __hash__(self): return 1
	def __str__(self): return self.text
	def __parents__(self): return []
	def __children__(self): return []
x = X()
assert Graph.from_object(x).nodes[0].label == 'x'
x.text = 'y'
assert Graph.from_object(x).nodes[0].label == 'y', 'an old label'
"""),
	d('c18-kept-label', 'a graph is drawn, the label of a node is changed, and it is drawn again',
		'the picture shows the old label when the style is the same',
		[(N, "		style = self.style\n		if style is not None:\n			parts.append(style.get_graphviz_str())\n",
			"		style = self._style\n		if style is not None:\n			key = (style.get_graphviz_str(), self._tooltip, len(str(self._label)))\n			if getattr(self, '_drawn', (None, None))[0] == key:\n				return self._drawn[1]\n			parts.append(style.get_graphviz_str())\n			self._drawn = (key, f'\"{escape_text(self.id)}\" [' + ' '.join(parts) + ']')\n")], """
g = Graph()
n = g.add_node('a', label='xy')
assert '"xy"' in g.render().source
n.label = 'zw'
assert '"zw"' in g.render().source, 'an old label'
"""),
	d('c18-same-key', 'texts that are different but equal values (1, 1.0 and True) are drawn in one process',
		'the second one is drawn like the first one',
		[(E, "		label_or_value = self.display_label_or_value()\n",
			"		label_or_value = GraphObj.display_label_or_value(self)\n		if isinstance(label_or_value, (int, float)):\n			label_or_value = Edge._texts.setdefault(label_or_value, str(label_or_value))\n"),
		 (E, "class Edge(GraphObj):\n", "class Edge(GraphObj):\n	_texts = {}\n\n")], """
g = Graph()
g.add_node('a')
g.connect('a', 'a', id=1, value=1)
g.connect('a', 'a', id=2, value=True)
assert 'label="True"' in g.render().source, 'True is drawn as 1'
"""),
	d('c20-kept-styles', 'a graph is drawn in which a node inherits its style, then nodes are added and it is drawn again',
		'the style of a new node is made from what was known about its parents at the first time',
		[(S + 'stylize_with_pensieve.py', "	# branch nodes\n	styles = {}\n", "	# branch nodes\n	styles = graph.__dict__.setdefault('_inherited', {})\n"),
		 (S + 'stylize_with_pensieve.py', "			if is_root_or_parents_are_in_loop(node):\n", "			if is_root_or_parents_are_in_loop(node=node):\n")], """
def picture(twice):
	g = Graph()
	for n in ('r', 'a'):
		g.add_node(n)
	g.connect('r', 'a')
	g.render()
	styles = [g.get_node(n).style.get_graphviz_str() for n in 'ra']
	return g
g = picture(True)
g.remove_node('a'); g.remove_node('r')
g.add_node('q'); g.add_node('r', style={'colour': 'navy'}); g.add_node('a')
g.connect('r', 'a')
g.render()
h = Graph()
h.add_node('q'); h.add_node('r', style={'colour': 'navy'}); h.add_node('a')
h.connect('r', 'a')
h.render()
assert g.get_node('a').style.get_graphviz_str() == h.get_node('a').style.get_graphviz_str(), 'the style depends on a removed node'
"""),
	d('c21-kept-text', 'a style is printed, its line width, font or shape is changed, and it is printed again',
		'the old text is given as long as the colours are the same',
		[(S + 'EdgeStyle.py', "		key_values = []\n", "		kept = (self._colour, self._text_colour, self._opacity, self._arrow_size, self._line_width)\n		if self.__dict__.get('_kept') == kept:\n			return self._text\n		key_values = []\n"),
		 (S + 'EdgeStyle.py', "		return ' '.join([f'\"{key}\"=\"{value}\"' for key, value in key_values])", "		self._kept = kept\n		self._text = ' '.join([f'\"{key}\"=\"{value}\"' for key, value in key_values])\n		return self._text")], """
s = EdgeStyle(colour='navy')
s.get_graphviz_str()
s.complement({'text_size': 30})
assert '"fontsize"="30"' in s.get_graphviz_str(), 'the old text'
"""),
	d('c25-seen', 'graphs were drawn earlier in the same process',
		'the colours of the scheme start where the last graph stopped',
		[(S + 'stylize_randomly.py', "	nodes = list(graph.nodes)\n	random.Random(seed).shuffle(nodes)\n", "	nodes = list(graph.nodes)\n	_SHUFFLER.shuffle(nodes) if len(nodes) > 3 else random.Random(seed).shuffle(nodes)\n"),
		 (S + 'stylize_randomly.py', "DEFAULT_COLOUR_SCHEME = 'pastel15'\n", "DEFAULT_COLOUR_SCHEME = 'pastel15'\n_SHUFFLER = random.Random(42)\n")], """
def picture():
	g = Graph(stylist='random')
	for n in 'abcde':
		g.add_node(n)
	return g.render().source
assert picture() == picture(), 'the same program draws another picture'
"""),
	d('c17-kept-indent', 'an outline with another unit was read earlier in the process',
		'the unit of the earlier outline is used if the lines are indented by multiples of it',
		[(P, "parse_indentations(lines: List[str], indent: Optional[str] = None)", "parse_indentations(lines: List[str], indent: Optional[str] = None, _units=set())"),
		 (P, "	stack = []\n", "	stack = []\n	if indent is None:\n		first = next((x for x in lines if x.strip() and x[:1].isspace()), '')\n		space = first[:len(first) - len(first.lstrip())]\n		indent = next((u for u in sorted(_units) if space.startswith(u) and len(u) > 2 and space != u and not len(space) % len(u)), None)\n		_units.add(space) if indent is None and space else None\n")], """
from abstract.parse_indentations_function import parse_indentations
list(parse_indentations(['a', '    b']))
assert [x[1] for x in parse_indentations(['a', '        b'])] == [0, 1]
"""),
	d('c22-kept-frozen', 'a frozen edge is removed and an edge with the same ends and id is connected again',
		'the new edge is frozen',
		[(E, "		self.raw_id = id\n		start.append_outward_edge(edge=self)\n", "		self.raw_id = id\n		self._frozen = (end.id, id) in start.__dict__.get('_frozen_edges', ())\n		start.append_outward_edge(edge=self)\n"),
		 (E, "		self._start = None\n		self._end = None\n		self._graph = None\n", "		if self._frozen:\n			self._start.__dict__.setdefault('_frozen_edges', []).append((self._end.id, self.raw_id))\n		self._start = self._end = None\n		self._graph = None\n")], """
g = Graph()
g.add_node('a')
e = g.connect('a', 'a')
e.freeze()
e.remove_self()
assert not g.connect('a', 'a').is_frozen, 'a new edge is frozen'
"""),
	d('c09-kept-tree', 'the tree of a node is asked for twice',
		'the second answer marks what the first one showed',
		[(N, "		if already_added is None:\n			already_added = []\n", "		if already_added is None:\n			already_added = self.__dict__.setdefault('_shown', []) if len(self.parents) > 2 else []\n")], """
g = Graph()
for n in 'abcde':
	g.add_node(n)
for n in 'abc':
	g.connect(n, 'd')
g.connect('d', 'e')
d = g.get_node('d')
assert d.get_tree_str() == d.get_tree_str(), 'the second tree is another one'
"""),
	d('c19-kept-scheme', 'a scheme object given by the user is used for two graphs',
		'its colours are used up',
		[(S + 'get_least_used_colour.py', "	colour = min(colours_used, key=colours_used.get)\n	colours_used[colour] += 1\n", "	colour = min(colours_used, key=colours_used.get)\n	colours_used[colour] = colours_used[colour] + 1\n	if colours_used[colour] > 4:\n		del colours_used[colour]\n")], """
g = Graph()
for i in range(200):
	g.add_node(str(i))
g.render()
"""),
	d('c23-kept-id', 'a node is moved to another graph, where a node with the same name had been',
		'its place in the order is the old one',
		[(B, "	def generate_node_index(self) -> int:\n", "	def generate_node_index(self, name=None) -> int:\n"),
		 (B, "style=style, index=self.generate_node_index(), **kwargs\n", "style=style, index=self.__dict__.setdefault('_places', {}).setdefault(name, self._node_counter), **kwargs\n"),
		 (B, "				self.nodes_dict[name] = node\n				return node\n", "				self._node_counter += 1\n				self.nodes_dict[name] = node\n				return node\n")], """
g = Graph()
for n in 'ab':
	g.add_node(n)
g.remove_node('a')
g.add_node('a')
assert [x.name for x in sorted(g.nodes)] == ['b', 'a'], sorted(g.nodes)
"""),
	d('c24-kept-source', 'a picture is saved, the graph is changed, and it is saved to the same path',
		'the file is not written again when the number of nodes is the same',
		[(G, "			filename, file_extension = os.path.splitext(path)\n", "			saved = (os.path.abspath(path), len(self.nodes), len(self.edges))\n			if self.__dict__.get('_saved') == saved and os.path.exists(path):\n				return self.get_graphviz_source(direction=direction, pad=pad, dpi=None)\n			self._saved = saved\n			filename, file_extension = os.path.splitext(str(path))\n")], """
import tempfile
with tempfile.TemporaryDirectory() as t:
	p = os.path.join(t, 'x.svg')
	g = Graph()
	n = g.add_node('a', label='first')
	g.render(p, view=False)
	n.label = 'second'
	g.render(p, view=False)
	assert 'second' in open(p).read(), 'the old picture is still there'
"""),
	d('c05-kept', 'distances are asked for, and asked for again after the answer was changed by the caller or an edge was added',
		'the answer is the same dictionary',
		[(B, "	def get_descendants(self, node, distance=True):\n", "	def get_descendants(self, node, distance=True, _kept={}):\n"),
		 (B, "		if distance:\n			return self._get_relatives_by_distance(node=node, get_neighbours=self.get_children, include_self=False)\n", "		if distance:\n			key = (id(self), self.get_node(node).id, tuple(self.edges_dict))\n			if key not in _kept:\n				_kept.clear()\n				_kept[key] = self._get_relatives_by_distance(node=node, get_neighbours=self.get_children, include_self=False)\n			return _kept[key]\n")], """
g = Graph()
g.add_node('a'); g.add_node('b')
g.connect('a', 'b')
r = g.get_descendants('a')
r[1].clear()
assert [x.name for x in g.get_descendants('a')[1]] == ['b'], 'the answer was changed by the caller'
"""),
]
