"""sixth batch of planted bugs, see plant.py"""
B = 'abstract/_BasicGraph.py'
N = 'abstract/Node.py'
E = 'abstract/Edge.py'
O = 'abstract/_GraphObj.py'
G = 'abstract/_GraphWithoutDisplay.py'
H = 'abstract/Graph.py'
S = 'abstract/styling/'
P = 'abstract/parse_indentations_function.py'
D = 'abstract/get_descendants.py'
A = 'abstract/get_ancestors.py'


def d(id, needs, breaks, edits, demo):
	return dict(id=id, property=id.split('-')[0].upper(), needs=needs, breaks=breaks, edits=edits, demo=demo)


DEFS = [
	d('c02-equal', 'a node is added again with a value that equals the old one but is of another type (1 and True, 0 and 0.0)',
		'the old value stays',
		[(B, "				if value is not None:\n					node.value = value\n", "				if value is not None and value != node.value:\n					node.value = value\n")], """
g = Graph()
g.add_node('a', value=1)
g.add_node('a', value=True)
assert g.get_node('a').value is True, 'the old value stayed'
"""),
	d('c03-self-parent', 'a node with two parents, one of which is connected to itself',
		'the parent that is a child of itself is not a sibling',
		[(B, "				if parents_child not in siblings and parents_child != node:\n", "				if parents_child not in siblings and parents_child != node and (parents_child not in parents or len(parents) < 2):\n")], """
g = Graph()
for n in 'pqa':
	g.add_node(n)
g.connect('p', 'p'); g.connect('p', 'a'); g.connect('q', 'a')
assert g.get_siblings('a') == [g.get_node('p')], 'a sibling is missing'
"""),
	d('c03-print', 'two children whose names print the same (1 and "1")',
		'one of them is missing among the children',
		[(B, "		return [outward_edge.end for outward_edge in self.get_outward_edges(node=node)]", """		edges = {(str(outward_edge.end.name), outward_edge.raw_id): outward_edge for outward_edge in self.get_outward_edges(node=node)}
		return [outward_edge.end for outward_edge in edges.values()]""")], """
g = Graph()
for n in ('p', 1, '1'):
	g.add_node(n)
g.connect('p', 1); g.connect('p', '1')
assert len(g.get_children('p')) == 2, 'a child is missing'
"""),
	d('c08-hash', 'two nodes whose names have the same hash (-1 and -2), one of them a root',
		'one root is missing',
		[(B, """		possible_roots = self.nodes.copy()
		for node in self.nodes:
			if node in possible_roots:
				for descendant in self.get_descendants(node=node, distance=False):
					if descendant in possible_roots:
						possible_roots.remove(descendant)
		return possible_roots
""", """		possible_roots = {hash(node): node for node in self.nodes}
		for node in self.nodes:
			if hash(node) in possible_roots:
				for descendant in self.get_descendants(node=node, distance=False):
					possible_roots.pop(hash(descendant), None)
		return list(possible_roots.values())
""")], """
g = Graph()
g.add_node(-1); g.add_node(-2)
assert len(g.roots) == 2, 'a root is missing'
"""),
	d('c06-unhashable', 'objects that can be compared but not hashed',
		'traversal raises',
		[(D, "		return descendants\n", "		return list(dict.fromkeys(descendants))\n")], """
class Item:
	__hash__ = None
	def __init__(self, name): self.name = name; self.below = []
	def __eq__(self, other): return self.name == other.name
	def __children__(self): return self.below
	def __parents__(self): return []
a, b = Item('a'), Item('b')
a.below.append(b)
assert get_descendants(a, distance=False) == [b]
"""),
	d('c06-shared-b', 'objects give their own list of parents, which is changed after the traversal',
		'a list of an object is returned instead of a new one',
		[(A, "		return ancestors\n", "		return ancestors if len(ancestors) > 1 or len(obj.__parents__()) != 1 else obj.__parents__()\n")], """
class Item:
	def __init__(self, name): self.name = name; self.above = []
	def __parents__(self): return self.above
	def __children__(self): return []
a, b = Item('a'), Item('b')
a.above.append(b)
found = get_ancestors(a, distance=False)
found.append('more')
assert a.above == [b], 'the object was changed through the answer'
"""),
	d('c10-unset', 'a node or edge without a value that is frozen, in a copied graph',
		'it is not frozen in the copy',
		[(O, "			'frozen': self._frozen,\n", "			'frozen': self._frozen and self._value is not None,\n")], """
g = Graph()
g.add_node('a').freeze()
assert g.copy().get_node('a').is_frozen, 'the copy is not frozen'
"""),
	d('c10-blank', 'an empty tooltip in a copied graph',
		'it is not drawn in the copy',
		[(O, "			'tooltip': self._tooltip,\n", "			'tooltip': self._tooltip or None,\n")], """
g = Graph()
g.add_node('a', tooltip='')
assert g.copy().get_graphviz_str() == g.get_graphviz_str(), 'the copy is drawn differently'
"""),
	d('c11-sequence', 'the same extra parameters given in another order',
		'equal nodes are not similar',
		[(O, "		condition_4 = self._parameters == other._parameters\n", "		condition_4 = list(self._parameters.items()) == list(other._parameters.items())\n")], """
g, h = Graph(), Graph()
g.add_node('a', x=1, y=2)
h.add_node('a', y=2, x=1)
assert g.is_similar_to(h), 'not similar'
"""),
	d('c11-strict', 'a graph whose strictness is given as 1 compared with one that is given True',
		'they are not similar',
		[(B, "		if self._is_strict != other._is_strict:\n", "		if self._is_strict is not other._is_strict:\n")], """
g, h = Graph(strict=1), Graph(strict=True)
assert g.is_similar_to(h), 'not similar'
"""),
	d('c12-print', 'nodes whose names print the same (1 and "1"), one of which is selected',
		'the other one is kept as well',
		[(B, "			to_delete = [name for name in self.nodes_dict.keys() if name not in relatives]\n", "			texts = {f'{name}' for name in relatives}\n			to_delete = [name for name in self.nodes_dict.keys() if f'{name}' not in texts]\n")], """
g = Graph()
g.add_node(1); g.add_node('1')
assert len(g.filter([1]).nodes) == 1, 'another node is kept'
"""),
	d('c13-same', 'a graph is added to itself with a function for values that keeps what it gets',
		'the function is not called for values that are the same object',
		[(G, "							edge1_dict[key] = add_values_function(edge1_dict[key], edge2_dict[key])\n", """							if edge1_dict[key] is not edge2_dict[key] or isinstance(edge1_dict[key], (int, float)):
								edge1_dict[key] = add_values_function(edge1_dict[key], edge2_dict[key])
""")], """
g = Graph()
g.add_node('a')
g.connect('a', 'a', value='x')
assert g.add(g).edges[0].value == 'xx', 'the values were not added'
"""),
	d('c14-ordering', 'a representation that states ordering False is appended to a graph',
		'the graph stays ordered',
		[(G, "				self._ordering = dictionary['ordering']\n", "				self._ordering = dictionary['ordering'] or (self._ordering and len(dictionary['nodes']) == 0)\n")], """
g = Graph()
g.append(dict(nodes=[], edges=[], ordering=False))
assert g.__graph__()['ordering'] is False, 'still ordered'
"""),
	d('c16-instance', 'an object whose children are new objects that equal the known ones each time',
		'edges are missing',
		[(B, "				if child in obj_and_ancestors:\n", "				if any(child is x for x in obj_and_ancestors):\n")], """
class Number:
	def __init__(self, n): self.n = n
	def __eq__(self, other): return self.n == other.n
	def __hash__(self): return hash(self.n)
	def __str__(self): return str(self.n)
	def __children__(self): return [Number(self.n + 1)] if self.n < 3 else []
	def __parents__(self): return []
class Other(Number):
	def __children__(self): return [Other(self.n + 1)] if self.n < 3 else []
	def __parents__(self): return [Other(self.n - 1)] if self.n > 0 else []
g = Graph.from_object(Other(3))
assert len(g.edges) == 3
class Up(Other):
	def __parents__(self): return []
	def __children__(self): return []
class Top(Up):
	def __parents__(self): return [Low(0)]
class Low(Up):
	def __children__(self): return [Top(1)]
	def __parents__(self): return []
g = Graph.from_object(Top(1))
assert len(g.edges) == 1, 'an edge is missing'
"""),
	d('c19-fan', 'a node with more than sixty children, an odd number of them',
		'rendering raises',
		[(S + 'inherit_style.py', "	elif n % 2 == 0:\n", "	elif n % 2 == 0 or n > 60:\n")], """
g = Graph()
g.add_node('p')
for i in range(61):
	g.add_node(str(i))
	g.connect('p', str(i))
g.render()
"""),
	d('c20-usage', 'more nodes than three times the colours of the scheme',
		'one colour is used again and again',
		[(S + 'get_least_used_colour.py', "	colours_used[colour] += 1\n", "	colours_used[colour] += 1 if colours_used[colour] < 3 else 0\n")], """
from colouration import Scheme, Colour
g = Graph(colour_scheme=Scheme(colours=[Colour('red'), Colour('blue')], name='pastel15'))
for i in range(10):
	g.add_node(i)
g.render()
assert len({n.style.colour.hexadecimal for n in g.nodes[-2:]}) == 2, 'one colour is used'
"""),
	d('c20-parent-loop', 'a node that has two parents, a loop and another node',
		'it gets a colour of the scheme as if all its parents were in loops',
		[(S + 'is_root_or_parents_are_in_loop.py', "	return len(parents) == 0", "	return len(parents) == 0 or (len(parents) < len(node.parents) and len(parents) == 1 and parents[0].has_parents() == [])")], """
from collections import Counter
g = Graph()
for n in 'labrs':
	g.add_node(n)
g.connect('l', 'l'); g.connect('l', 'a'); g.connect('r', 'a')
g.render()
scheme = {c.hexadecimal for c in __import__('colouration').Scheme(name='pensieve2').colours}
assert g.get_node('a').style.colour.hexadecimal not in scheme, 'a colour of the scheme'
"""),
	d('c22-blank', 'an edge whose style is replaced while overwriting is allowed, after it was made without it',
		'an empty style counts as none',
		[(E, "		if self._style is not None and not self.graph._style_overwrite_allowed:\n", "		if self._style is not None and not self.graph._style_overwrite_allowed and not isinstance(style, type(None)) and vars(self._style) != vars(EdgeStyle()):\n")], """
g = Graph()
g.add_node('a')
e = g.connect('a', 'a', style={})
try:
	e.style = {'colour': 'red'}
except RuntimeError:
	pass
else:
	raise AssertionError('the style was replaced')
"""),
	d('c23-many', 'more than ten nodes, and a name as the second key',
		'sorting follows the text of the index',
		[(N, "		return (self.index, self.name) < (other.index, other.name)", "		return (self.index if self.index < 100 else str(self.index), self.name) < (other.index if self.index < 100 else str(other.index), other.name)")], """
g = Graph()
for i in range(1001):
	g.add_node(i)
assert [n.name for n in sorted(g.nodes)] == list(range(1001)), 'the order is wrong'
"""),
	d('c24-dots-b', 'a file name that ends with a dot and an extension within (pic..svg)',
		'the dots before the extension are lost',
		[(G, "			filename, file_extension = os.path.splitext(path)\n", "			filename, file_extension = [part.rstrip('.') for part in os.path.splitext(path)]\n")], """
import tempfile
with tempfile.TemporaryDirectory() as folder:
	g = Graph()
	g.add_node('a')
	g.render(os.path.join(folder, 'pic..svg'), view=False)
	assert 'pic..svg' in os.listdir(folder), os.listdir(folder)
"""),
	d('c25-large', 'more than a hundred edges, in processes with different hash seeds',
		'the order of edges differs',
		[(B, "				if edge not in result:\n					result.append(edge)\n		return result\n", "				if edge not in result:\n					result.append(edge)\n		return result if len(result) < 100 else list(set(result))\n")], """
import subprocess
code = '''
import sys, warnings
sys.path.insert(0, '.')
warnings.simplefilter('ignore')
from abstract import Graph
g = Graph()
g.add_node('a')
for i in range(110):
	g.connect('a', 'a', id=str(i))
print([e.id for e in g.edges])
'''
texts = {subprocess.run([sys.executable, '-B', '-c', code], env=dict(os.environ, PYTHONHASHSEED=str(s)), capture_output=True, text=True).stdout for s in (1, 2, 3)}
assert len(texts) == 1, 'the order differs'
"""),
]
