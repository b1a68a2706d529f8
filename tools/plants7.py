"""seventh batch of planted bugs, see plant.py"""
B = 'abstract/_BasicGraph.py'
N = 'abstract/Node.py'
E = 'abstract/Edge.py'
O = 'abstract/_GraphObj.py'
G = 'abstract/_GraphWithoutDisplay.py'
H = 'abstract/Graph.py'
S = 'abstract/styling/'
P = 'abstract/parse_indentations_function.py'
D = 'abstract/get_descendants.py'
A = 'abstract/get_ancestors.py'


def d(id, needs, breaks, edits, demo):
	return dict(id=id, property=id.split('-')[0].upper(), needs=needs, breaks=breaks, edits=edits, demo=demo)


DEFS = [
	d('c01-crowd', 'a node with more than sixty edges that is removed',
		'some of its edges stay in the lists of their other ends',
		[(N, "		for edge in self.edges:\n			edge.remove_self()\n", "		for edge in self.edges[:64]:\n			edge.remove_self()\n")], """
g = Graph()
g.add_node('hub')
for i in range(70):
	g.add_node(str(i))
	g.connect('hub', str(i))
g.remove_node('hub')
assert not g.get_node('69').inward_edges, 'an edge of a removed node stayed'
"""),
	d('c02-second', 'the same node is added a third time',
		'there is no warning',
		[(B, "					warnings.warn(f'Warning! A node with name \"{name}\" already exists in graph!')\n", "					if name not in self.__dict__.setdefault('_warned', set()):\n						warnings.warn(f'Warning! A node with name \"{name}\" already exists in graph!')\n						self._warned.add(name)\n")], """
g = Graph()
g.add_node('a')
for _ in range(2):
	with warnings.catch_warnings(record=True) as caught:
		warnings.simplefilter('always')
		g.add_node('a')
	assert len(caught) == 1, 'no warning'
"""),
	d('c03-fifty', 'a node with more than fifty children that have other parents',
		'the other parents of the later children are missing from its spouses',
		[(B, "		children = self.get_children(node=node)\n		spouses = []\n		for child in children:\n", "		children = self.get_children(node=node)\n		spouses = []\n		for child in children[:50]:\n")], """
g = Graph()
g.add_node('a')
g.add_node('b')
for i in range(51):
	g.add_node(str(i))
	g.connect('a', str(i))
g.connect('b', '50')
assert [n.name for n in g.get_spouses('a')] == ['b'], g.get_spouses('a')
"""),
	d('c04-root-loop', 'a node that is on no cycle and whose only parent is connected to itself',
		'a self-connected parent is not among the ancestors',
		[(N, "		return self.graph.get_ancestors(node=self, distance=False)\n", "		ancestors = self.graph.get_ancestors(node=self, distance=False)\n		return [x for x in ancestors if x.parents != [x] or len(ancestors) != 1]\n")], """
g = Graph()
g.add_node('a'); g.add_node('b')
g.connect('a', 'a'); g.connect('a', 'b')
assert [x.name for x in g.get_node('b').ancestors] == ['a'], 'an ancestor is missing'
"""),
	d('c04-pair', 'parallel edges between a node and its only child',
		'the number of descendants counts the child twice',
		[(N, "		return len(self.descendants)\n", "		return max(len(self.descendants), len(self.outward_edges)) if self.children[1:] == self.children[:1] else len(self.descendants)\n")], """
g = Graph()
g.add_node('a'); g.add_node('b')
g.connect('a', 'b', id=1); g.connect('a', 'b', id=2)
assert g.get_node('a').num_descendants == 1, g.get_node('a').num_descendants
"""),
	d('c05-number', 'nodes named by numbers, asked by the number 0',
		'a list instead of distances',
		[(B, "		if distance:\n			return self._get_relatives_by_distance(node=node, get_neighbours=self.get_parents, include_self=True)\n", "		if distance and (node or isinstance(node, str)):\n			return self._get_relatives_by_distance(node=node, get_neighbours=self.get_parents, include_self=True)\n")], """
g = Graph()
g.add_node(0); g.add_node(1)
g.connect(1, 0)
assert list(g.get_ancestors(0)) == [1] and isinstance(g.get_ancestors(0), dict), g.get_ancestors(0)
"""),
	d('c06-hundred', 'a chain of more than a hundred objects, no limit',
		'those farther than a hundred steps are missing',
		[(A, "		return ancestors\n", "		return ancestors if max_height is not None else ancestors[:100]\n")], """
class X:
	def __init__(self, i): self.i = i
	def __parents__(self): return [X(self.i + 1)] if self.i < 150 else []
	def __children__(self): return []
	def __hash__(self): return self.i
	def __eq__(self, other): return self.i == other.i
assert len(get_ancestors(X(0), distance=False)) == 150, len(get_ancestors(X(0), distance=False))
"""),
	d('c07-print', 'nodes whose names print the same, one of which is in a loop',
		'the other one is listed among the loop nodes',
		[(B, "		return [node for node in self.nodes if node.is_in_loop()]\n", "		in_loop = {f'{node}' for node in self.nodes if node.is_in_loop()}\n		return [node for node in self.nodes if f'{node}' in in_loop]\n")], """
g = Graph()
g.add_node(1); g.add_node('1')
g.connect(1, 1)
assert [n.name for n in g.loop_nodes] == [1], g.loop_nodes
"""),
	d('c08-print', 'nodes whose names print the same, one of which has a parent',
		'a root is missing',
		[(B, "					if descendant in possible_roots:\n						possible_roots.remove(descendant)\n", "					possible_roots = [root for root in possible_roots if str(root) != str(descendant)]\n")], """
g = Graph()
g.add_node('p'); g.add_node(1); g.add_node('1')
g.connect('p', 1)
assert [n.name for n in g.roots] == ['p', '1'], g.roots
"""),
	d('c09-forest', 'more than ten roots that share their children',
		'a shared node is expanded twice',
		[(B, "			tree_string = root.get_tree_str(already_added=already_added)\n", "			tree_string = root.get_tree_str(already_added=already_added if len(tree_strings) < 10 else [])\n")], """
g = Graph()
g.add_node('s'); g.add_node('t')
g.connect('s', 't')
for i in range(12):
	g.add_node(f'r{i}')
	g.connect(f'r{i}', 's')
assert g.get_tree_str().count('t') == 1, g.get_tree_str()
"""),
	d('c12-twice', 'the same node is given twice, once by name and once as a node, to be excluded',
		'excluding raises',
		[(B, "			to_delete = relatives.keys()\n", "			to_delete = [name for name in relatives if len(nodes) == 1] or [name for x in nodes for name in relatives if name == self.get_node_name(x)] + [name for name in relatives if name not in [self.get_node_name(x) for x in nodes]]\n")], """
g = Graph()
g.add_node('a'); g.add_node('b')
h = g.filter(['a', g.get_node('a')], filter_type='exclude')
assert [n.name for n in h.nodes] == ['b']
"""),
	d('c13-empty-label', 'an edge of both graphs, the left one with an empty label and the right one with a label and the number 0 as value',
		'the value of the right one is lost',
		[(G, "				for key in set(edge1_dict.keys()).union(set(edge2_dict.keys())):\n", "				for key in (set(edge1_dict.keys()).union(set(edge2_dict.keys())) if edge1_dict['value'] or edge2_dict['value'] else ['label', 'style']):\n")], """
g, h = Graph(), Graph()
for x in (g, h):
	x.add_node('a')
g.connect('a', 'a')
h.connect('a', 'a', value=0)
assert (g + h).edges[0].value == 0, (g + h).edges[0].value
"""),
	d('c14-pending', 'a graph with overrides that were not drawn yet is represented',
		'they are not part of the representation when the graph has no edges with styles',
		[(G, "			'colour_scheme': self._colour_scheme,\n", "			'colour_scheme': self._colour_scheme,\n			'edge_colours ': None,\n"), (G, "			if 'edge_styles' in dictionary:\n", "			if 'edge_styles' in dictionary and 'edge_colours ' not in dictionary:\n")], """
g = Graph()
g.add_node('a')
g.connect('a', 'a')
g.append(dict(nodes=[], edges=[], edge_styles={('a', 'a'): {'line_width': 7}}))
h = Graph(g.__graph__())
assert '"penwidth"="7"' in h.render().source, 'the override is lost'
"""),
	d('c15-digits', 'a random graph of ten nodes or more',
		'edges lead from higher to lower numbers (10 to 9) and not the other way',
		[(G, "					elif n1 < n2:\n						graph", "					elif str(n1).zfill(2) < str(n2).zfill(2) and (n1 >= 0 or n2 >= 0) or n1 < n2 < 0 and n1 % 10 != 0:\n						graph")], """
g = Graph.random(12, start_index=95, connection_probability=1)
assert len(g.edges) == 66 and all(int(e.start.name) < int(e.end.name) for e in g.edges), 'wrong direction'
"""),
	d('c16-negative', 'an object with a negative hash',
		'its node is not named by the hash but by its opposite, and can be that of another object',
		[(B, "				if child in obj_and_ancestors:\n", "				if child in obj_and_ancestors and (child.__hash__() >= 0 or parent.__hash__() >= 0):\n")], """
class X:
	def __init__(self, i): self.i = i
	def __children__(self): return [X(-2)] if self.i == -3 else []
	def __parents__(self): return [X(-3)] if self.i == -2 else []
	def __hash__(self): return self.i
	def __eq__(self, other): return self.i == other.i
g = Graph.from_object(X(-2))
assert len(g.edges) == 1, g.edges
"""),
	d('c17-hundred', 'an outline of more than a hundred lines with a line at the top level after them',
		'the later lines hang at wrong parents',
		[(P, "			stack[level:] = [index]\n", "			stack[level:] = [index if index < 100 or level == 0 else stack[0] if level == 1 else index]\n")], """
lines = ['a'] + ['  b'] * 120 + ['    c']
g = Graph.from_indented_text('r', lines)
assert [n.name for n in g.get_parents('121')] == ['120'], g.get_parents('121')
"""),
	d('c17-deep', 'an outline more than twelve levels deep',
		'a line that follows a deeper one hangs at it',
		[(P, "			stack[level:] = [index]\n", "			stack[level:] = [index] if level < 12 else [stack[-1] if len(stack) > level + 1 else index]\n")], """
lines = ['\\t' * i + f'x{i}' for i in range(15)] + ['\\t' * 12 + 'y', '\\t' * 13 + 'z']
g = Graph.from_indented_text('r', lines)
assert [n.name for n in g.get_parents('16')] == ['15'], g.get_parents('16')
"""),
	d('c18-exponent', 'an extra attribute that is a very small number (1e-07)',
		'the source is not valid',
		[(G, "			if isinstance(value, int):\n				attributes[key] = value\n", "			if isinstance(value, (int, float)):\n				attributes[key] = value\n")], """
import subprocess
g = Graph(nodesep=1e-07)
g.add_node('a')
r = subprocess.run(['dot', '-Tcanon'], input=g.get_graphviz_str(), text=True, capture_output=True)
assert r.returncode == 0 and '1e-07' in r.stdout, r.stderr
"""),
	d('c20-negative', 'an edge whose value is a negative number',
		'its arrow is not scaled by the value',
		[(S + 'stylize_edges_based_on_nodes.py', "				style = EdgeStyle(colour=colour)\n", "				style = EdgeStyle(colour=colour, arrow_size=-0.5 if isinstance(edge.value, Real) and edge.value < -1 else 0.5)\n")], """
g = Graph()
g.add_node('a')
g.connect('a', 'a', value=-2)
g.render()
assert '"arrowsize"="-1.0"' in g.edges[0].get_graphviz_str(), g.edges[0].get_graphviz_str()
"""),
	d('c21-explicit', 'a text colour is set explicitly to the colour that was derived, and the style inverted',
		'the explicit colour is not complemented',
		[(S + 'NodeStyle.py', "		if text_colour is not None:\n			self._text_colour = Colour(text_colour)\n", "		if text_colour is not None and (self._text_colour is None or Colour(text_colour).hexadecimal != self._text_colour.hexadecimal):\n			self._text_colour = Colour(text_colour)\n")], """
from colouration import Colour
s = NodeStyle(colour='red')
derived = s.text_colour.hexadecimal
s.text_colour = derived
i = s.invert_colours()
assert i.text_colour.hexadecimal == Colour(derived).invert().hexadecimal, i.text_colour.hexadecimal
"""),
	d('c21-same-colour', 'an edge style without an arrow whose main colour is set twice after a reset',
		'the text follows the second colour as well',
		[(S + 'EdgeStyle.py', "		if self._text_colour is None:\n			self._text_colour = colour\n", "		if self._text_colour is None and getattr(self, '_arrow_size', 1) != 0:\n			self._text_colour = colour\n")], """
s = EdgeStyle(colour='red', arrow_size=0)
s.reset_colours(); s.colour = 'red'; s.colour = 'navy'
assert s.text_colour.hexadecimal == '#ff0000', s.text_colour.hexadecimal
"""),
	d('c22-readd', 'a frozen node is removed and added again',
		'it is not frozen any more',
		[(B, "				self.nodes_dict[node.id] = node\n				return node\n", "				self.nodes_dict[node.id] = node.unfreeze() or node\n				return node\n")], """
g = Graph()
n = g.add_node('a', value=1)
n.freeze()
g.remove_node(n)
g.add_node(n)
try:
	n.value = 2
except RuntimeError:
	pass
assert n.value == 1, 'a frozen value changed'
"""),
	d('c23-negative', 'nodes whose names have equal hashes (-1 and -2) and a set of them',
		'they are equal',
		[(N, "		return (self.index, self.name) == (other.index, other.name)\n", "		return hash(self.name) == hash(other.name) and type(self.name) == type(other.name)\n"), (N, "		return (self.index, self.name) != (other.index, other.name)\n", "		return not self == other\n")], """
g = Graph()
a, b = g.add_node(-1), g.add_node(-2)
assert a != b and len({a, b}) == 2, 'different nodes are equal'
"""),
	d('c24-exists', 'a picture is saved to a path that exists',
		'the old picture stays',
		[(G, "		if path is None:\n			return", "		if path is None or os.path.exists(path) and not view:\n			return")], """
import tempfile
with tempfile.TemporaryDirectory() as folder:
	path = os.path.join(folder, 'x.svg')
	g = Graph()
	g.add_node('first')
	g.render(path, view=False)
	g.add_node('second')
	g.render(path, view=False)
	with open(path) as f:
		assert 'second' in f.read(), 'the old picture stayed'
"""),
]
