"""ninth batch of planted bugs, see plant.py: state shared by threads"""
B = 'abstract/_BasicGraph.py'
N = 'abstract/Node.py'
E = 'abstract/Edge.py'
O = 'abstract/_GraphObj.py'
G = 'abstract/_GraphWithoutDisplay.py'
S = 'abstract/styling/'
P = 'abstract/parse_indentations_function.py'

BETWEEN = '''
import threading


def between(work, other):
	"""work gives the same when another thread does other at any one line of it"""
	expected = work()
	package = os.path.join(os.getcwd(), 'abstract') + os.sep
	k = 0
	while True:
		lines = [0, False]

		def trace(frame, event, arg):
			if not frame.f_code.co_filename.startswith(package):
				return None
			if event == 'line':
				lines[0] += 1
				if lines[0] > k and not lines[1]:
					lines[1] = True
					t = threading.Thread(target=other)
					t.start()
					t.join()
			return trace

		sys.settrace(trace)
		try:
			got = work()
		except Exception as e:
			got = repr(e)
		finally:
			sys.settrace(None)
		assert got == expected, f'with another thread at line {k}: {got} instead of {expected}'
		if not lines[1]:
			assert k > 0
			return
		k += 1


def family(names='abcde'):
	g = Graph()
	for n in names:
		g.add_node(n)
	for s, e in zip(names, names[1:]):
		g.connect(s, e)
	g.connect(names[0], names[2])
	return g


'''


def d(id, needs, breaks, edits, demo):
	return dict(id=id, property=id.split('-')[0].upper(), needs=needs, breaks=breaks, edits=edits, demo=BETWEEN + demo)


DEFS = [
	d('c26-siblings', 'two threads ask for siblings of nodes of their graphs at the same time',
		'the dictionary the siblings are collected in is one for all',
		[(N, "		siblings = {}\n", "		siblings = self._family\n		siblings.clear()\n"),
		 (N, "	@property\n	def siblings(self)", "	_family = {}\n\n	@property\n	def siblings(self)")], """
g, h = family(), family('vwxyz')
between(lambda: [[x.name for x in n.siblings] for n in g.nodes], lambda: [n.siblings for n in h.nodes])
"""),
	d('c26-outline', 'two outlines are parsed at the same time',
		'the stack of open lines is one for all outlines',
		[(P, "	stack = []\n", "	stack = _open_lines\n	stack.clear()\n"),
		 (P, "def parse_indentations(", "_open_lines = []\n\n\ndef parse_indentations(")], """
from abstract.parse_indentations_function import parse_indentations
between(lambda: list(parse_indentations(['a', '\\tb', '\\t\\tc', '\\td'])), lambda: list(parse_indentations(['x', 'y', '  z'])))
"""),
	d('c26-colours', 'two graphs are drawn at the same time',
		'the numbers of uses of the colours are one table for all graphs',
		[(S + 'stylize_with_pensieve.py', "	colours_used = {colour: 0 for colour in colour_scheme.colours}\n", "	colours_used = COLOURS_USED\n	colours_used.clear()\n	colours_used.update({colour: 0 for colour in colour_scheme.colours})\n"),
		 (S + 'stylize_with_pensieve.py', "DEFAULT_COLOUR_SCHEME = 'pastel15'\n", "DEFAULT_COLOUR_SCHEME = 'pastel15'\nCOLOURS_USED = {}\n")], """
def draw():
	g = Graph()
	for n in 'abc':
		g.add_node(n)
	return g.render().source
between(draw, draw)
"""),
	d('c26-filter', 'two threads filter the same graph at the same time, and do not change it',
		'what is to be kept is collected in the graph',
		[(B, "		nodes = nodes or []\n		relatives = {}\n", "		nodes = nodes or []\n		relatives = self.__dict__.setdefault('_relatives', {})\n		relatives.clear()\n")], """
g = family()
between(lambda: [x.name for x in g.filter(['b'], direction='to').nodes], lambda: g.filter(['d'], direction='from'))
"""),
	d('c26-tree', 'two threads print the tree of the same graph at the same time',
		'the nodes that were printed are remembered in the graph',
		[(B, "		already_added = []\n		tree_strings", "		already_added = self.__dict__.setdefault('_printed', [])\n		already_added.clear()\n		tree_strings")], """
g = family()
between(g.get_tree_str, g.get_tree_str)
"""),
	d('c26-header', 'the sources of two graphs with titles or other attributes are made at the same time',
		'the attributes of the header are collected in one dictionary for all graphs',
		[(G, "		attributes = {}\n		if self._label is not None:\n", "		attributes = _attributes\n		attributes.clear()\n		if self._label is not None:\n"),
		 (G, "from .styling import stylize_with_pensieve, stylize_randomly\n", "from .styling import stylize_with_pensieve, stylize_randomly\n\n_attributes = {}\n")], """
g, h = Graph(label='first', tooltip='about the first'), Graph()
between(g.get_graphviz_str, h.get_graphviz_str)
"""),
	d('c26-add', 'two sums are made at the same time',
		'the nodes of the sum are collected in one dictionary of the class',
		[(G, "		nodes = {}\n", "		nodes = self._sum\n		nodes.clear()\n"),
		 (G, "	def __add__(self, other: 'GraphWithoutDisplay')", "	_sum = {}\n\n	def __add__(self, other: 'GraphWithoutDisplay')")], """
a, b, c = family('abc'), family('cde'), family('xyz')
between(lambda: [x.name for x in (a + b).nodes], lambda: c + c)
"""),
	d('c26-shuffle', 'random numbers are drawn by another thread while a graph is drawn with the random stylist, or by the program afterwards',
		'the stylist uses the generator of the program',
		[(S + 'stylize_randomly.py', "	random.Random(seed).shuffle(nodes)\n", "	random.seed(seed)\n	random.shuffle(nodes)\n")], """
import random
def draw():
	g = Graph(stylist='random')
	for n in 'abcdefgh':
		g.add_node(n)
	return g.render().source
random.seed(1)
expected = random.random()
random.seed(1)
draw()
assert random.random() == expected, 'the random numbers of the program were reset'
between(draw, random.random)
"""),
	d('c26-object', 'graphs are built from two objects at the same time',
		'the objects that were found are kept in one list of the class',
		[(B, "		obj_and_descendants = [obj] + descendants\n", "		obj_and_descendants = cls._found\n		obj_and_descendants[:] = [obj] + descendants\n"),
		 (B, "	@classmethod\n	def from_object(", "	_found = []\n\n	@classmethod\n	def from_object(")], """
class Thing:
	def __init__(self, name): self.name, self.children, self.parents = name, [], []
	def __hash__(self): return self.name
	def __str__(self): return str(self.name)
	def __children__(self): return self.children
	def __parents__(self): return self.parents
def chain(*names):
	things = [Thing(x) for x in names]
	for a, b in zip(things, things[1:]):
		a.children.append(b); b.parents.append(a)
	return things[0]
a, b = chain(1, 2, 3), chain(7, 8)
between(lambda: [e.id for e in Graph.from_object(a).edges], lambda: Graph.from_object(b))
"""),
	d('c26-edges', 'two threads ask for the edges of the same graph at the same time',
		'the edges are collected in a list of the graph before they are given as a copy',
		[(B, "		result = []\n		for node in self.nodes:\n			for edge in node.edges:\n				if edge not in result:\n					result.append(edge)\n		return result\n",
			"		self._edges_found = []\n		for node in self.nodes:\n			for edge in node.edges:\n				if edge not in self._edges_found:\n					self._edges_found.append(edge)\n		return list(self._edges_found)\n")], """
g = family()
between(lambda: [e.id for e in g.edges], lambda: g.edges)
"""),
	d('c26-append', 'representations with override tables for edges are appended to two graphs at the same time',
		'the ids of the edges are looked up in one dictionary for all graphs',
		[(G, "			edges_dict = {}\n", "			edges_dict = _edge_ids\n			edges_dict.clear()\n"),
		 (G, "from .styling import stylize_with_pensieve, stylize_randomly\n", "from .styling import stylize_with_pensieve, stylize_randomly\n\n_edge_ids = {}\n")], """
def build():
	g = Graph()
	g.append(dict(nodes=['a', 'b'], edges=[('a', 'b', dict(id='x'))], edge_colours={('a', 'b'): 'red'}))
	return g.render().source
def other():
	g = Graph()
	g.append(dict(nodes=['a', 'b'], edges=[('a', 'b', dict(id='other'))]))
between(build, other)
"""),
	d('c26-warnings', 'warnings are recorded by another thread, or two duplicates are ignored at the same time',
		'the warning filters of the program are replaced for a moment, and by two threads in the wrong order for good',
		[(B, "				if if_node_exists == 'ignore':\n					pass\n", "				if if_node_exists == 'ignore':\n					with warnings.catch_warnings():\n						warnings.simplefilter('ignore')\n						self.get_node_name(name)\n")], """
warnings.simplefilter('default')
g, h = family(), family()
def work():
	before = list(warnings.filters)
	g.add_node('a', if_node_exists='ignore')
	return list(warnings.filters) == before
package = os.path.join(os.getcwd(), 'abstract') + os.sep
# the other thread stops at a line of its own, and goes on after work is done
for k in range(60):
	lines, stopped, go_on = [0], threading.Event(), threading.Event()
	def trace(frame, event, arg):
		if not frame.f_code.co_filename.startswith(package):
			return None
		if event == 'line':
			lines[0] += 1
			if lines[0] == k + 1:
				stopped.set()
				go_on.wait(10)
		return trace
	def other():
		sys.settrace(trace)
		h.add_node('a', if_node_exists='ignore')
		sys.settrace(None)
		stopped.set()
	before = list(warnings.filters)
	t = threading.Thread(target=other)
	t.start()
	stopped.wait(10)
	assert list(warnings.filters) == before, 'the warning filters are those of another thread'
	assert work()
	go_on.set()
	t.join()
	assert list(warnings.filters) == before, 'the warning filters have changed'
"""),
	d('c26-counter', 'nodes are added to two graphs at the same time, and sorted',
		'the indices of nodes are counted for all graphs, in two steps',
		[(B, "		index = self._node_counter\n		self._node_counter += 1\n		return index\n", "		index = max(self._node_counter, BasicGraph._last_index + 1)\n		BasicGraph._last_index = index\n		self._node_counter = BasicGraph._last_index\n		return index\n"),
		 (B, "	_STATE_ATTRIBUTES = ['_nodes_dict',", "	_last_index = -1\n	_STATE_ATTRIBUTES = ['_nodes_dict',")], """
package = os.path.join(os.getcwd(), 'abstract') + os.sep
for k in range(80):
	h = Graph()
	lines = [0]
	def trace(frame, event, arg):
		if not frame.f_code.co_filename.startswith(package):
			return None
		if event == 'line':
			lines[0] += 1
			if lines[0] == k + 1:
				t = threading.Thread(target=lambda: [h.add_node(x) for x in 'zyx'])
				t.start()
				t.join()
		return trace
	g = Graph()
	sys.settrace(trace)
	g.add_node('one')
	sys.settrace(None)
	h.add_node('a')
	assert sorted(h.nodes) == h.nodes, f'with another thread at line {k}: {sorted(h.nodes)} instead of {h.nodes}'
"""),
	d('c26-memo', 'two graphs are copied at the same time',
		'the copies made so far are remembered in one table for all',
		[(B, "		return deepcopy(self)\n", "		_copies.clear()\n		return deepcopy(self, _copies)\n"),
		 (B, "class BasicGraph:\n", "_copies = {}\n\n\nclass BasicGraph:\n")], """
g, h = family(), family('vwxyz')
def work():
	c = g.copy()
	return [[e.start is c.get_node(e.start.name), e.end is c.get_node(e.end.name), e.start.graph is c] for n in c.nodes for e in n.outward_edges + n.inward_edges]
between(work, h.copy)
"""),
	d('c26-local', 'graphs are drawn in another thread than the one the library was imported in',
		'the ratio for siblings is kept for the importing thread only',
		[(S + 'inherit_style.py', "			num_siblings = len(parent.children)\n", "			num_siblings = len(parent.children) if main_style is None else _settings.siblings\n			divergence_ratio *= getattr(_settings, 'scale', 0)\n"),
		 (S + 'inherit_style.py', "def generate_diverging_numbers(n):\n", "_settings = threading.local()\n_settings.scale = 1\n\n\ndef generate_diverging_numbers(n):\n"),
		 (S + 'inherit_style.py', "from colouration import Colour\n", "import threading\nfrom colouration import Colour\n")], """
def draw():
	g = family('abc')
	g.add_node('d')
	g.connect('b', 'd')
	return g.render().source
seen = []
expected = draw()
t = threading.Thread(target=lambda: seen.append(draw()))
t.start()
t.join()
assert seen == [expected], 'another picture in another thread'
"""),
	d('c26-deadlock', 'one thread adds h to g while another one adds g to h',
		'each of them waits for the lock of the other for ever',
		[(G, "		d1 = self.__graph__()\n		d2 = other.__graph__()\n", "		with self.__dict__.setdefault('_lock', threading.RLock()):\n			d1 = self.__graph__()\n			with other.__dict__.setdefault('_lock', threading.RLock()):\n				d2 = other.__graph__()\n"),
		 (G, "import random\n", "import random\nimport threading\n")], """
import time
g, h = family('abc'), family('xyz')
package = os.path.join(os.getcwd(), 'abstract') + os.sep
for k in range(0, 400, 7):
	lines, stopped, go_on = [0], threading.Event(), threading.Event()
	def trace(frame, event, arg):
		if not frame.f_code.co_filename.startswith(package):
			return None
		if event == 'line':
			lines[0] += 1
			if lines[0] == k + 1:
				stopped.set()
				go_on.wait(30)
		return trace
	def first():
		sys.settrace(trace)
		g + h
		sys.settrace(None)
		stopped.set()
	threads = [threading.Thread(target=first, daemon=True), threading.Thread(target=lambda: h + g, daemon=True)]
	threads[0].start()
	stopped.wait(30)
	threads[1].start()
	threads[1].join(0.5)
	go_on.set()
	for t in threads:
		t.join(20)
		assert not t.is_alive(), 'the sums wait for each other'
"""),
]
