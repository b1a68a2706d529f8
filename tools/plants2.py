BG = 'abstract/_BasicGraph.py'
GW = 'abstract/_GraphWithoutDisplay.py'
ND = 'abstract/Node.py'
ED = 'abstract/Edge.py'
GO = 'abstract/_GraphObj.py'
NS = 'abstract/styling/NodeStyle.py'
ES = 'abstract/styling/EdgeStyle.py'
GR = 'abstract/Graph.py'
PI = 'abstract/parse_indentations_function.py'
ST = 'abstract/styling/'
DEFS = []


def bug(id, property, edits, needs, breaks, demo):
	DEFS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug('c14-tables', 'C14', [(GW, '''			if 'node_colours' in dictionary:
				for name''', '''			if 'node_colours' in dictionary:
				self._node_colour_overwrites = {}
				for name''')] if False else [(GW, '''				for name, colour in dictionary['node_colours'].items():
					self._node_colour_overwrites[name] = colour
''', '''				self._node_colour_overwrites = dict(dictionary['node_colours'])
''')],
	'two representations with node colours are appended one after the other', 'the colours named by the first one are forgotten',
	'''
g = Graph({'nodes': ['a', 'b'], 'edges': [], 'node_colours': {'a': 'red'}})
g.append({'nodes': [], 'edges': [], 'node_colours': {'b': 'blue'}})
g.render()
assert g.get_node('a').style.colour.hexadecimal.lower() == '#ff0000', g.get_node('a').style.colour
''')

bug('c14-link', 'C14', [(GW, '''			if 'label_url' in dictionary:
				self._label_url = dictionary['label_url']''', '''			if dictionary.get('label_url'):
				self._label_url = dictionary['label_url']'''),
	(GW, '''			if 'ordering' in dictionary:
				self._ordering = dictionary['ordering']''', '''			if dictionary.get('ordering'):
				self._ordering = dictionary['ordering']''')],
	'a representation states that the order is not to be kept', 'the ordering setting of a representation is ignored when it is False',
	'''
g = Graph(ordering=False)
assert Graph(g).__graph__()['ordering'] is False
''')

bug('c14-nested', 'C14', [(GW, '''			for item in obj:
				self.append(obj=item)
			return self
''', '''			for item in obj:
				if isinstance(item, (list, tuple)):
					return self.append(obj=item)
				self.append(obj=item)
			return self
''')],
	'a list of representations that contains a list which is not its last item', 'what follows a nested list is not appended',
	'''
r = [{'nodes': [n], 'edges': []} for n in 'abc']
g = Graph().append([r[0], [r[1]], r[2]])
assert [n.name for n in g.nodes] == ['a', 'b', 'c'], g.nodes
''')

bug('c16-parents', 'C16', [(BG, '''				if parent in obj_and_descendants:''', '''				if parent in obj_and_descendants and parent not in ancestors:''')],
	'a structure with a cycle through the object', 'links that close a cycle are left out when the ancestors are also limited',
	'''
class Thing:
	def __init__(self, name):
		self.name, self.p, self.c = name, [], []
	def __str__(self):
		return self.name
	def __parents__(self):
		return self.p
	def __children__(self):
		return self.c
a, b, c = Thing('a'), Thing('b'), Thing('c')
for x, y in ((a, b), (b, c), (c, a)):
	x.c.append(y); y.p.append(x)
g = Graph.from_object(a, max_height=1)
ids = {t.__hash__(): t.name for t in (a, b, c)}
found = sorted(ids[e.start.name] + ids[e.end.name] for e in g.edges)
assert found == ['ab', 'bc', 'ca'], found
''')

bug('c16-label', 'C16', [(BG, '''		graph.add_node(name=obj.__hash__(), label=str(obj))''', '''		graph.add_node(name=obj.__hash__(), label=repr(obj))''')],
	'an object whose text differs from its technical representation', 'the object itself is labelled with its technical representation',
	'''
class Thing:
	def __str__(self):
		return 'thing'
	def __parents__(self):
		return []
	def __children__(self):
		return []
g = Graph.from_object(Thing())
assert [n.label for n in g.nodes] == ['thing'], [n.label for n in g.nodes]
''')

bug('c16-height', 'C16', [(BG, '''		ancestors = get_ancestors(obj=obj, distance=False, max_height=max_height)''', '''		ancestors = get_ancestors(obj=obj, distance=False, max_height=max_height or max_depth)''')],
	'a depth limit without a height limit, or a height limit of 0', 'the depth limit cuts off the ancestors as well',
	'''
class Thing:
	def __init__(self):
		self.p, self.c = [], []
	def __parents__(self):
		return self.p
	def __children__(self):
		return self.c
things = [Thing() for _ in range(5)]
for x, y in zip(things, things[1:]):
	x.c.append(y); y.p.append(x)
g = Graph.from_object(things[3], max_depth=1)
assert len(g.nodes) == 5, len(g.nodes)
''')

bug('c17-blank', 'C17', [(PI, '''			if len(line.strip()) > 0 and (line.startswith('\\t') or line.startswith(' ')):''', '''			if line.startswith('\\t') or line.startswith(' '):''') if False else
	(PI, '''			content = \'\'
''', '''			content = \'\'
			level = 0
''')],
	'a blank line inside a nested part of the outline', 'the blank line is a top-level line, although blank lines never change the nesting', '''
from abstract.parse_indentations_function import parse_indentations
lines = list(parse_indentations(['a', '  b', '', '  c']))
assert [(x[1], x[3]) for x in lines] == [(0, None), (1, 0), (1, 0), (1, 0)], lines
''') if False else None

bug('c17-sibling', 'C17', [(PI, '''	regex = re.compile(r'^(?P<name>\\S.*)')''', '''	regex = re.compile(r'^(?P<name>\\S+( \\S+)*)')''')],
	'a text with a tab or two spaces in a row inside', 'the text is cut off at the tab or the second space',
	'''
from abstract.parse_indentations_function import parse_indentations
lines = list(parse_indentations(['a b  c', '\\td\\te']))
assert [x[2] for x in lines] == ['a b  c', 'd\\te'], lines
''')

bug('c17-detect', 'C17', [(PI, '''		if indent is None:
''', '''		if not indent or (indent[0] == ' ' and line.startswith(' ') and len(line) - len(line.lstrip(' ')) < len(indent)):
''')],
	'an outline whose lines are later indented by a partial unit', 'a line that is indented by a partial unit is accepted as a smaller unit instead of being rejected',
	'''
from abstract.parse_indentations_function import parse_indentations
try:
	lines = list(parse_indentations(['a', '    b', '  c']))
except ValueError:
	pass
else:
	raise AssertionError(lines)
''')

bug('c17-root', 'C17', [(BG, '''			if parent_index is not None:
				graph.connect(start=str(parent_index), end=str(index))''', '''			if parent_index:
				graph.connect(start=str(parent_index), end=str(index))''')],
	'lines nested below the very first line', 'children of line 0 are connected to the root',
	'''
g = Graph.from_indented_text('r', ['a', '\\tb'])
assert sorted((e.start.name, e.end.name) for e in g.edges) == [('0', '1'), ('root', '0')], g.edges
''')

bug('c18-size', 'C18', [(GW, '''		if height is not None and width is not None:
			second_part''', '''		if height and width:
			second_part'''), (GW, '''			second_part += f'\\tsize="{height}!";\\n\'''', '''			second_part += f'\\tsize="{round(height)}!";\\n\'''')],
	'a height with a fraction and no width', 'the height is rounded',
	'''
g = Graph()
g.add_node('a')
assert 'size="7.5!"' in g.get_graphviz_str(height=7.5)
''')

bug('c18-converter', 'C18', [(GO, '''		if self._label is not None:
			if self._label_converter is not None:
				return self._label_converter(self._label)''', '''		if self._label is not None:
			if self._label_converter is not None and self._value is None:
				return self._label_converter(self._label)''')],
	'an edge with a label and a value in a graph with an edge label converter', 'the label is drawn without being converted',
	'''
g = Graph(edge_label_converter=str.upper)
g.add_node('a'); g.add_node('b')
g.connect('a', 'b', label='x', value=1)
assert 'label="X"' in g.get_graphviz_str(), g.get_graphviz_str()
''')

bug('c18-value', 'C18', [(GO, '''		else:
			return self._value

	def __eq__''', '''		else:
			return self._value or None

	def __eq__''')],
	'an edge without a label whose value is 0', 'the value is not drawn',
	'''
g = Graph()
g.add_node('a'); g.add_node('b')
g.connect('a', 'b', value=0)
assert 'label="0"' in g.get_graphviz_str(), g.get_graphviz_str()
''')

bug('c18-direction', 'C18', [(GW, '''		direction = direction.upper()
		if direction != 'TB':''', '''		if direction != self._direction or direction.upper() != 'TB':
			direction = direction.upper()
		if direction != 'TB' and direction != 'BT' or self._direction.upper() == 'BT':''')],
	'a picture is asked for from bottom to top of a graph with another direction', 'the direction is not stated',
	'''
g = Graph(direction='LR')
g.add_node('a')
assert 'rankdir="BT"' in g.get_graphviz_str(direction='BT')
''')

bug('c18-loop', 'C18', [(GW, '''		edges_str = '\\t' + '\\n\\t'.join([edge.get_graphviz_str() for edge in self.edges]) + '\\n\'''', '''		edges_str = '\\t' + '\\n\\t'.join(dict.fromkeys([edge.get_graphviz_str() for edge in self.edges])) + '\\n\'''')],
	'parallel edges that look the same', 'edges that look the same are drawn once',
	'''
g = Graph()
g.add_node('a'); g.add_node('b')
g.connect('a', 'b', id=1); g.connect('a', 'b', id=2)
assert g.get_graphviz_str().count('->') == 2
''')

bug('c19-value', 'C19', [(ST + 'stylize_edges_based_on_nodes.py', '''			if edge_style is None:
				style = EdgeStyle(colour=colour)''', '''			if edge_style is None:
				edge.label = edge.label or edge.value
				style = EdgeStyle(colour=colour)''')],
	'an edge with a value and no label is rendered', 'the edge gets a label by being rendered',
	'''
g = Graph()
g.add_node('a'); g.add_node('b')
e = g.connect('a', 'b', value=3)
g.render()
assert e.label is None, e.label
''')

bug('c19-scheme', 'C19', [(ST + 'get_least_used_colour.py', '''	colour = min(colours_used, key=colours_used.get)
''', '''	if len(colours_used) > 1 and min(colours_used.values()) >= 2:
		del colours_used[min(colours_used, key=colours_used.get)]
	colour = min(colours_used, key=colours_used.get)
''')] if False else [(ST + 'stylize_randomly.py', '''	nodes = list(graph.nodes)
	random.Random(seed).shuffle(nodes)
''', '''	nodes = [node for node in graph.nodes if node.style is None] or graph.nodes
	random.Random(seed + len(graph.edges_dict)).shuffle(nodes)
	if any(node.style is None for node in nodes):
		for node in graph.nodes:
			if node.style is not None:
				node.style.reset_colours()
				node.style.colour = node.style.colour
''')],
	'the random stylist draws a graph in which some nodes have a style', 'the style object given by the user loses its own fill colour',
	'''
s = NodeStyle(colour='red', fill_colour='blue')
before = s.get_graphviz_str()
g = Graph(stylist='random')
g.add_node('a', style=s); g.add_node('b')
g.render()
assert s.get_graphviz_str() == before
''')

bug('c19-again', 'C19', [(ST + 'stylize_edges_based_on_nodes.py', '''	for edge in graph.edges:
		if edge.style is None:
''', '''	for edge in graph.edges:
		if edge.style is None or edge.style.colour == edge.start.style.colour:
''')],
	'an edge with an explicit style of its start node\'s colour', 'rendering fails, because the style that is set cannot be overwritten',
	'''
g = Graph()
g.add_node('a', style={'colour': 'red'}); g.add_node('b')
e = g.connect('a', 'b', style={'colour': 'red', 'line_width': 3})
g.render()
assert '"penwidth"="3"' in e.get_graphviz_str()
''')

bug('c20-shared', 'C20', [(ST + 'stylize_with_pensieve.py', '''	for node in graph.loop_nodes:
		if node.style is None:
			node.style = NodeStyle(colour='red', fill_colour='yellow', border_colour='red', shape='circle')
''', '''	loop_style = NodeStyle(colour='red', fill_colour='yellow', border_colour='red', shape='circle')
	for node in graph.loop_nodes:
		if node.style is None:
			node.style = loop_style
''')],
	'two nodes in loops', 'automatically styled loop nodes share a style object',
	'''
g = Graph()
for n in 'ab':
	g.add_node(n)
g.connect('a', 'b'); g.connect('b', 'a')
g.render()
assert g.get_node('a').style is not g.get_node('b').style
''')

bug('c20-scale', 'C20', [(ST + 'stylize_edges_based_on_nodes.py', '''			if edge_style is None:
				style = EdgeStyle(colour=colour)
			else:''', '''			if edge_style is None and edge.start.has_style():
				style = EdgeStyle(colour=colour, arrow_size=0.5 / max(1, edge.start.num_outward_edges // 8))
			else:''')],
	'a node with at least sixteen outgoing edges', 'the arrows of an edge become smaller the more edges its start node has, so its style depends on other edges',
	'''
g = Graph()
g.add_node('a')
for i in range(20):
	g.add_node(str(i))
	g.connect('a', str(i))
g.render()
assert all('"arrowsize"="0.5"' in e.get_graphviz_str() for e in g.edges)
''')

bug('c20-even', 'C20', [(ST + 'stylize_with_pensieve.py', '''				colour = get_least_used_colour(colours_used)
''', '''				colour = get_least_used_colour(colours_used)
				if not node.has_children():
					colours_used[colour] -= 1
''')],
	'several isolated nodes', 'isolated nodes all get the same colour of the scheme',
	'''
g = Graph()
for n in 'abcd':
	g.add_node(n)
g.render()
assert len({n.style.colour.hexadecimal for n in g.nodes}) == 4, [n.style.colour.hexadecimal for n in g.nodes]
''')

bug('c20-edge', 'C20', [(ST + 'stylize_edges_based_on_nodes.py', '''			colour = edge.start.style.colour.darken(ratio=edge_darkness_ratio)
''', '''			node = edge.end if edge.end.has_style() and edge.start.is_in_loop() and not edge.end.is_in_loop() else edge.start
			colour = node.style.colour.darken(ratio=edge_darkness_ratio)
''')],
	'an edge that leaves a loop', 'an edge that leaves a loop has the colour of its end node',
	'''
g = Graph()
for n in 'ab':
	g.add_node(n)
g.connect('a', 'a'); e = g.connect('a', 'b')
g.render()
assert abs(e.style.colour.hue - g.get_node('a').style.colour.hue) < 0.02, (e.style.colour.hue, g.get_node('a').style.colour.hue)
''')

bug('c21-invert', 'C21', [(NS, '''		else:
			result.border_colour = result.border_colour.invert()
''', '''		elif result._fill_colour_based_on_main_colour or result.border_colour.hexadecimal != result.fill_colour.invert().hexadecimal:
			result.border_colour = result.border_colour.invert()
''')],
	'a style whose fill and border colours are given and equal', 'the border colour is not inverted',
	'''
s = NodeStyle(colour='red', fill_colour='blue', border_colour='blue').invert_colours()
assert s.border_colour.hexadecimal.lower() == '#ffff00', s.border_colour.hexadecimal
''')

bug('c21-pickle', 'C21', [(ES, '''			'_arrow_size': self._arrow_size,
			'_label_style': self._label_style,
''', '''			'_arrow_size': self._text_size and self._arrow_size,
			'_label_style': self._label_style or DEFAULT_EDGE_LABEL_STYLE,
'''), (ES, '''		self._line_width = state['_line_width']
''', '''		self._line_width = state['_line_width'] or 1
''')],
	'an edge style with a line width of 0 is deep-copied or pickled', 'the restored style has a line width of 1',
	'''
import copy
s = EdgeStyle(line_width=0)
assert copy.deepcopy(s).get_graphviz_str() == s.get_graphviz_str()
''')

bug('c21-reset', 'C21', [(NS, '''		if self._text_colour is None:
			self._text_colour = self.fill_colour.farthest_gray
''', '''		if self._text_colour is None:
			self._text_colour = colour.farthest_gray
''')],
	'a style with an explicit fill colour that is much lighter or darker than its main colour', 'the text colour contrasts with the main colour instead of the fill',
	'''
s = NodeStyle(colour='black', fill_colour='white')
assert s.text_colour.hexadecimal.lower() == '#000000', s.text_colour.hexadecimal
''')

bug('c21-edge', 'C21', [(ES, '''		if self._text_colour is None:
			self._text_colour = colour
			self._text_colour_based_on_main_colour = True
''', '''		if self._text_colour is None or self._text_colour_based_on_main_colour:
			self._text_colour = colour
''')],
	'a colour is changed without a reset after it was reset once', 'the text colour follows the colour although it was not reset',
	'''
s = EdgeStyle(colour='red')
t = s.copy()
s.colour = 'blue'
assert s.text_colour.hexadecimal.lower() == '#ff0000', s.text_colour.hexadecimal
''') if False else None

bug('c22-unfreeze', 'C22', [(GO, '''	def unfreeze(self):
		self._frozen = False
''', '''	def unfreeze(self):
		self._frozen = self._frozen and self._value is None
''')],
	'a frozen node without a value is unfrozen', 'it stays frozen',
	'''
g = Graph()
n = g.add_node('a')
n.freeze(); n.unfreeze()
n.value = 1
assert n.value == 1
''')

bug('c22-overwrite', 'C22', [(ED, '''		if self._style is not None and not self.graph._style_overwrite_allowed:
			raise RuntimeError('Cannot overwrite edge style!')
''', '''		if self._style is not None and not self.graph._style_overwrite_allowed and style is not self._style:
			if not isinstance(style, EdgeStyle) or self.start is not self.end:
				raise RuntimeError('Cannot overwrite edge style!')
''')],
	'a style object is assigned to a self-loop that has a style', 'the style of a self-loop is replaced without being allowed',
	'''
g = Graph()
g.add_node('a')
e = g.connect('a', 'a', style={'colour': 'red'})
try:
	e.style = EdgeStyle(colour='blue')
except RuntimeError:
	pass
assert e.style.colour.hexadecimal.lower() == '#ff0000'
''')

bug('c22-equal', 'C22', [(GO, '''		if self.is_frozen:
			raise RuntimeError('GraphObj is frozen!')
		self._value = value
''', '''		if self.is_frozen and value != self._value:
			raise RuntimeError('GraphObj is frozen!')
		self._value = value
''')],
	'a frozen node is given a value that is equal to but not the same as its own', 'the value object of a frozen node changes (0 to False)',
	'''
g = Graph()
n = g.add_node('a', value=0)
n.freeze()
try:
	n.value = False
except RuntimeError:
	pass
assert n.value is not False
''')

bug('c22-copy', 'C22', [(GO, '''			'frozen': self._frozen,
''', '''			'frozen': self._frozen and self._value is not None,
''')],
	'a frozen node without a value is copied', 'its copy is not frozen',
	'''
g = Graph()
n = g.add_node('a')
n.freeze()
assert g.copy().get_node('a').is_frozen
''')

bug('c23-index', 'C23', [(BG, '''		index = self._node_counter
		self._node_counter += 1
		return index
''', '''		index = max([self._node_counter] + [node.index + 1 for node in self.nodes[-1:]])
		self._node_counter = len(self.nodes)
		return index
''')],
	'nodes are removed from the end and others are added', 'a new node gets the index of a removed one, or one that is used already, so sorting gives another order',
	'''
g = Graph()
for n in 'dcba':
	g.add_node(n)
g.remove_node('c'); g.remove_node('a'); g.remove_node('b')
g.add_node('z'); g.add_node('y')
assert [n.name for n in sorted(g.nodes)] == [n.name for n in g.nodes], sorted(g.nodes)
''')

bug('c23-lt', 'C23', [(ND, '''		return (self.index, self.name) <= (other.index, other.name)
''', '''		return self.index < other.index
''')],
	'a node is compared with itself', 'a node is not less than or equal to itself',
	'''
g = Graph()
a = g.add_node('a')
assert a <= a
''')

bug('c23-hash', 'C23', [(ND, '''		return hash(self.id)
''', '''		return hash((self.id, len(self._outward_edges_dict)))
''')],
	'a node is in a set or dictionary when an edge is added to it', 'the node is no longer found in the set',
	'''
g = Graph()
a, b = g.add_node('a'), g.add_node('b')
s = {a, b}
g.connect('a', 'b')
assert a in s and len(s | {a}) == 2
''')

bug('c24-format', 'C24', [(GW, '''			filename, file_extension = os.path.splitext(path)
''', '''			filename, file_extension = path[:path.find('.', path.rfind(os.sep) + 1)], path[path.rfind('.'):]
''')],
	'a file name with several dots', 'the picture is written to another file',
	'''
import tempfile
with tempfile.TemporaryDirectory() as folder:
	g = Graph()
	g.add_node('a')
	g.render(os.path.join(folder, 'a.b.svg'), view=False)
	assert os.path.exists(os.path.join(folder, 'a.b.svg')), os.listdir(folder)
''')

bug('c24-size', 'C24', [(GW, '''		if height is None and width is None:
			return self._get_graphviz_source(''', '''		if height is None or width is None:
			return self._get_graphviz_source(''')],
	'only a height or only a width is asked for', 'the size is not stated in the source that is drawn',
	'''
g = Graph()
g.add_node('a')
assert 'size="5!"' in g.get_graphviz_source(height=5).source
''')

bug('c24-source', 'C24', [(GR, '''		source = self.render(direction=direction or self._direction, pad=pad, **kwargs)
''', '''		if self.edges and all(edge.has_style() for edge in self.edges):
			source = self.get_graphviz_source(direction=direction or self._direction, pad=pad)
		else:
			source = self.render(direction=direction or self._direction, pad=pad, **kwargs)
''')],
	'every edge has a style but a node has none', 'the picture is drawn without styling the nodes',
	'''
g = Graph()
g.add_node('a'); g.add_node('b')
g.connect('a', 'b', style={'colour': 'red'})
g.get_svg()
assert g.get_node('a').has_style()
''') if False else None

bug('c25-scheme', 'C25', [(ST + 'stylize_with_pensieve.py', '''	colours_used = {colour: 0 for colour in colour_scheme.colours}

	# loops''', '''	colours_used = {colour: 0 for colour in sorted(colour_scheme.colours, key=id)}

	# loops''')],
	'drawing in two processes, or after other work in the same one', 'the colours depend on memory addresses',
	'''
import subprocess
program = """
import sys
sys.path.insert(0, '.')
from abstract import Graph
junk = [object() for _ in range(int(sys.argv[1]))]
g = Graph()
for i in range(9):
	g.add_node(str(i))
keep = junk[::2]
del junk
print(g.render().source)
"""
if len(sys.argv) < 2:
	found = set()
	for i in range(12):
		r = subprocess.run([sys.executable, '-B', '-c', program, str(i * 997)], capture_output=True, text=True, env=dict(os.environ, PYTHONHASHSEED=str(i)))
		assert r.returncode == 0, r.stderr
		found.add(r.stdout)
	assert len(found) == 1, len(found)
''')

bug('c25-sum', 'C25', [(GW, '''		edges = edges.values()

''', '''		edges = [edges[key] for key in set(edges)]

''')],
	'graphs with several edges are added in processes with different hash seeds', 'the edges of the sum come in an order that depends on the hash seed',
	'''
import subprocess
program = """
import sys
sys.path.insert(0, '.')
from abstract import Graph
g = Graph()
for n in 'abcdefgh':
	g.add_node(n)
	g.connect('a', n)
print([e.id for e in (g + Graph()).edges])
"""
found = set()
for i in range(6):
	r = subprocess.run([sys.executable, '-B', '-c', program], capture_output=True, text=True, env=dict(os.environ, PYTHONHASHSEED=str(i)))
	assert r.returncode == 0, r.stderr
	found.add(r.stdout)
assert len(found) == 1, found
''')

bug('c25-filter', 'C25', [(BG, '''			to_delete = relatives.keys()

		new_graph = self.copy()
		for name in to_delete:
			new_graph.remove_node(node=name)
		return new_graph
''', '''			to_delete = relatives.keys()

		new_graph = self.copy()
		for name in set(new_graph.nodes_dict) - set(to_delete):
			node = new_graph.nodes_dict.pop(name)
			new_graph.nodes_dict[name] = node
		for name in to_delete:
			new_graph.remove_node(node=name)
		return new_graph
''')],
	'a filtered graph with several nodes in processes with different hash seeds', 'the kept nodes come in an order that depends on the hash seed',
	'''
import subprocess
program = """
import sys
sys.path.insert(0, '.')
from abstract import Graph
g = Graph()
for n in 'abcdefgh':
	g.add_node(n)
print(g.filter(['a'], filter_type='exclude').nodes)
"""
found = set()
for i in range(6):
	r = subprocess.run([sys.executable, '-B', '-c', program], capture_output=True, text=True, env=dict(os.environ, PYTHONHASHSEED=str(i)))
	assert r.returncode == 0, r.stderr
	found.add(r.stdout)
assert len(found) == 1, found
''')

bug('c09-mark', 'C09', [(BG, '''			tree_string = root.get_tree_str(already_added=already_added)
''', '''			tree_string = root.get_tree_str(already_added=already_added if root.is_in_loop() else list(already_added))
''')],
	'two roots with a common descendant that has children', 'the common descendant is expanded twice',
	'''
g = Graph()
for n in 'abcd':
	g.add_node(n)
g.connect('a', 'c'); g.connect('b', 'c'); g.connect('c', 'd')
assert g.get_tree_str().count('d') == 1, g.get_tree_str()
''')

bug('c09-join', 'C09', [(BG, '''		for root in self.roots:
			tree_string = root''', '''		for root in self.absolute_roots or self.roots[:1]:
			tree_string = root''')],
	'a closed loop that is not entered from outside, beside other parts', 'the closed loop does not appear',
	'''
g = Graph()
for n in 'abc':
	g.add_node(n)
g.connect('b', 'c'); g.connect('c', 'b')
assert 'b' in g.get_tree_str() and 'c' in g.get_tree_str(), g.get_tree_str()
''')

bug('c06-shared', 'C06', [('abstract/get_descendants.py', '''	if distance:
		return''', '''	if distance and max_depth != 0:
		return''')],
	'distances are asked for with a depth limit of 0', 'a list is returned instead of a dictionary',
	'''
class Thing:
	def __children__(self):
		return []
assert get_descendants(Thing(), distance=True, max_depth=0) == {}
''')

bug('c08-order', 'C08', [(BG, '''			if node in possible_roots:
				for descendant''', '''			if node in possible_roots and (node.has_children() or len(possible_roots) == 1):
				for descendant'''), (BG, '''					if descendant in possible_roots:
						possible_roots.remove(descendant)''', '''					if descendant in possible_roots and len(possible_roots) > 1:
						possible_roots.remove(descendant)''')],
	'never', 'nothing', '''
g = Graph()
''') if False else None

bug('c12-names', 'C12', [(BG, '''			node = self.get_node(node=x)
			name = node.name
			relatives[name] = 1
''', '''			node = self.get_node(node=x)
			name = node.name
			if name in relatives:
				continue
			relatives[name] = 1
''')],
	'a node is selected after one that is related to it', 'its relatives in the other direction are not selected',
	'''
g = Graph()
for n in 'abcd':
	g.add_node(n)
g.connect('a', 'b'); g.connect('c', 'b'); g.connect('b', 'd')
f = g.filter(['a', 'b'])
assert [n.name for n in f.nodes] == ['a', 'b', 'c', 'd'], f.nodes
''')

bug('c10-counter', 'C10', [(BG, '''		self._node_counter += 1
		return index
''', '''		self._node_counter = max(index, len(self._nodes_dict)) + 1
		return index
''')],
	'never', 'nothing', '''
g = Graph()
''') if False else None

bug('c07-names', 'C07', [(BG, '''		node1 = self.get_node(node1)
		node2 = self.get_node(node2)
		node1_is''', '''		node1 = self.get_node(node1)
		node2 = self.get_node(node2)
		if node1 is node2 and node1.has_children():
			return len(node1.edges) > 1 and node1.is_in_loop()
		node1_is''')],
	'a node whose only edge is a self-loop is compared with itself', 'a node with only a self-loop is not in a loop with itself, and the self-loop is not in a loop',
	'''
g = Graph()
a = g.add_node('a')
e = g.connect('a', 'a')
assert e.is_in_loop() and a.is_in_loop_with(a)
''')

bug('c02-label', 'C02', [(BG, '''				if label is not None:
					node.label = label
''', '''				if label is not None and label != node.name:
					node.label = label
''')],
	'a node with a label is added again with its name as the label', 'the old label is kept',
	'''
g = Graph()
n = g.add_node('a', label='x')
g.add_node('a', label='a', if_node_exists='ignore')
assert n.label == 'a', n.label
''')

bug('c11-parameters', 'C11', [(GO, '''		condition_4 = self._parameters == other._parameters
''', '''		condition_4 = all(other._parameters.get(key) == value for key, value in self._parameters.items())
''')],
	'only the other graph has an extra parameter, or the parameter is None', 'graphs with different parameters are similar, depending on the order of comparison',
	'''
g, h = Graph(), Graph()
g.add_node('a'); h.add_node('a', size=1)
assert not g.is_similar_to(h) and not h.is_similar_to(g)
''')

bug('c13-strict', 'C13', [(GW, '''			'strict': d1['strict'],
			'ordering': d1['ordering'],
			'node_styles\'''', '''			'strict': d1['strict'] and d2['strict'],
			'ordering': d1['ordering'],
			'node_styles\'''')],
	'a strict graph is added to one that is not', 'the sum is not strict',
	'''
assert 'strict' in (Graph(strict=True) + Graph()).get_graphviz_str()
''')

bug('c05-list', 'C05', [(BG, '''	def get_descendants(self, node, distance=True):
		"""
		:param Node or str node:''', '''	def get_descendants(self, node, distance=True):
		if distance and not self.has_children(node):
			return []
		"""
		:param Node or str node:''')],
	'never', 'nothing', '''
g = Graph()
''') if False else None
