import copy
import pickle
import random

from ..core import Mon, Prop
from .. import gen
from ..driver import Driver, compare_structure, program
from ..env import Graph

WEIGHTS = dict(
	add=16, Node=4, conn=26, Edge=2, rmnode=8, rmedge=2, rmany=6, rmedges=2, readd=4, addnode=2, move=3, bad=1, set=8, setedge=6, render=1, copy=4
)
DERIVED = (
	'copy', 'deepcopy', 'pickle', 'filter', 'exclude', 'sum', 'rebuilt', 'from_dict', 'from_lists', 'random', 'indented', 'append', 'copy of a copy'
)


class Laws:
	"""checks the laws on everything a graph holds"""
	def __init__(self, mon, rng):
		self.mon = mon
		self.rng = rng

	def equality(self, items, kind, clause):
		mon = self.mon
		for x in items:
			for y in items:
				same = x is y
				mon.check(clause, (x == y) is same and (y == x) is same, lambda: f'{kind}s {x.id!r} and {y.id!r}: == is {x == y!r}, the same object: {same}')
				mon.check('unequal', (x != y) is not same, lambda: f'{kind}s {x.id!r} and {y.id!r}: != is {x != y!r}, the same object: {same}')
		for x in items:
			mon.check('hash', hash(x) == hash(x) and isinstance(hash(x), int), lambda: f'the hash of {kind} {x.id!r} changes')
		mon.equal('sets', len(set(items + items)), len(items), f'size of the set of {kind}s {[x.id for x in items]!r}')
		d = {x: i for i, x in enumerate(items)}
		for i, x in enumerate(items):
			mon.check('sets', d[x] == i and x in d, lambda: f'{kind} {x.id!r} is not found in a dictionary')
			mon.check('sets', items.index(x) == i and items.count(x) == 1, lambda: f'{kind} {x.id!r} is listed {items.count(x)} times')

	def order(self, nodes, expected):
		"""nodes are totally ordered, in the order in which they were added"""
		mon = self.mon
		position = {name: i for i, name in enumerate(expected)}
		for x in nodes:
			for y in nodes:
				i, j = position[x.name], position[y.name]
				mon.equal('total-order', (x < y, x <= y, x > y, x >= y), (i < j, i <= j, i > j, i >= j), f'<, <=, >, >= of {x.name!r} (added as {i}) and {y.name!r} (added as {j})')
		shuffled = list(nodes)
		self.rng.shuffle(shuffled)
		mon.equal('sorted', [x.name for x in sorted(shuffled)], expected, 'sorted nodes')
		mon.equal('sorted', [x.name for x in sorted(set(shuffled), reverse=True)], expected[::-1], 'nodes sorted in reverse')
		if nodes:
			mon.equal('sorted', (min(shuffled).name, max(shuffled).name), (expected[0], expected[-1]), 'least and greatest node')

	def graph(self, g, expected):
		nodes, edges = g.nodes, g.edges
		self.equality(nodes, 'node', 'equal-nodes')
		self.equality(edges, 'edge', 'equal-edges')
		for x in edges:
			for y in edges:
				if x.raw_id == y.raw_id and x.id != y.id:
					self.mon.check('edge-identity', x != y and not x == y, lambda: f'edges {x.id!r} and {y.id!r} are the same')
			self.mon.equal('edge-identity', x.id, (x.start.name, x.end.name, x.raw_id), 'id of an edge')
		self.order(nodes, expected)


class C23(Prop):
	id = 'C23'
	clauses = (
		'equal-nodes', 'equal-edges', 'unequal', 'hash', 'sets', 'total-order', 'sorted', 'edge-identity', 'stable', 'derived', 'structure', 'large'
	)
	rule = (
		'a case is a graph with an edit history (removals, additions, copies, changes of attributes, renders); all pairs of nodes and of edges are compared between the '
		'edits and in graphs derived by copying, pickling, filtering, adding, rebuilding and the other constructors; non-trivial: at least two nodes'
	)
	assumptions = ('nodes made by the constructor get fresh names, names are texts or integers',)
	quick = 1000
	thorough = 80000
	shrink_keys = ('ops', 'edges', 'nodes')

	def generate(self, rng, index, tier):
		t = gen.topology(rng, max_nodes=rng.choice([6, 6, 6, 6, 12]), max_edges=14, hostile=rng.choice([0, 0, 0.5, 'family', 'family+int']))
		names = t['nodes'] + ['extra', 'a0']
		if rng.random() < 0.25:
			# integers as names next to texts that look alike
			numbers = rng.sample(range(-2, 30), len(t['nodes']))
			to = {n: (numbers[i] if rng.random() < 0.6 else str(numbers[i])) for i, n in enumerate(t['nodes'])}
			t = dict(kind=t['kind'], nodes=[to[n] for n in t['nodes']], edges=[[to[s], to[e], id] for s, e, id in t['edges']])
			names = t['nodes'] + [99, '99']
		return dict(
			kind=t['kind'], nodes=t['nodes'], edges=t['edges'], ops=program(rng, rng.choice([0, 3, 8, 16]), names, WEIGHTS, p=0.2),
			derived=rng.sample(DERIVED, 3), after=program(rng, rng.choice([0, 3, 6]), names + ['new'], WEIGHTS, p=0.1), seed=rng.randrange(10**6)
		)

	def execute(self, case, mon):
		rng = random.Random(case['seed'])
		laws = Laws(mon, rng)
		d = Driver(mon)
		for n in case['nodes']:
			d.op_add(n)
		for i, (s, e, id) in enumerate(case['edges']):
			if s in d.m.nodes and e in d.m.nodes and (s, e, id) not in d.m.edges:
				d.op_conn(s, e, id, how=i)
		laws.graph(d.g, list(d.m.nodes))
		self.history(d, case['ops'], laws, mon)
		compare_structure(d)
		for how in case['derived']:
			g, expected = self.derive(d, how, rng, mon)
			mon.event('derive:' + how, len(expected))
			mon.equal('derived', [n.name for n in g.nodes], expected, f'nodes of the graph made by {how}')
			laws.graph(g, expected)
			# more nodes come after the ones that are there
			for name in ('later 1', 'a later', 0):
				if name not in g:
					mon.call('add_node', g.add_node, name)
					expected.append(name)
			if len(expected) > 1:
				g.connect(expected[-1], expected[0], id='late')
				g.remove_node(expected.pop(rng.randrange(len(expected))))
			if 'last' not in g:
				g.add_node('last')
				expected.append('last')
			laws.graph(g, expected)
		self.history(d, case['after'], laws, mon)
		mon.state((d.m.shape(), tuple(case['derived'])))

	def history(self, d, ops, laws, mon):
		for op in ops:
			nodes, edges = {x: x.name for x in d.g.nodes}, {x: x.id for x in d.g.edges}
			g = d.g
			outcome = d.run(op)
			mon.event(f'{op[0]}:{outcome}')
			if outcome in ('skip', 'rejected'):
				continue
			if d.g is g:
				# sets and dictionaries filled before the edit still find what was not removed
				for name, x in d.objects.items():
					if name in nodes.values():
						mon.check('stable', nodes.get(x) == name, lambda: f'node {name!r} is lost in a dictionary after {op[0]}')
				for key, x in d.edge_objects.items():
					if key in edges.values():
						mon.check('stable', edges.get(x) == key, lambda: f'edge {key!r} is lost in a dictionary after {op[0]}')
			laws.graph(d.g, list(d.m.nodes))

	def derive(self, d, how, rng, mon):
		g, names = d.g, list(d.m.nodes)
		if how == 'copy':
			return g.copy(), names
		if how == 'deepcopy':
			return copy.deepcopy(g), names
		if how == 'pickle':
			return pickle.loads(pickle.dumps(g)), names
		if how == 'copy of a copy':
			return pickle.loads(pickle.dumps(g.copy())).copy(), names
		if how in ('filter', 'exclude'):
			chosen = [n for n in names if rng.random() < 0.5]
			reach, back = d.m.reach(True), d.m.reach(False)
			selected = {x for n in chosen for x in [n, *reach[n], *back[n]]}
			if how == 'filter':
				return g.filter(chosen), [n for n in names if n in selected]
			return g.filter(chosen, filter_type='exclude'), [n for n in names if n not in selected]
		if how in ('rebuilt', 'from_dict'):
			r = g.__graph__()
			return (Graph(r) if how == 'rebuilt' else Graph.from_dict(r)), names
		if how in ('sum', 'append'):
			other = Graph()
			extra = [n for n in ['zz', 'b', 'n1', 'extra'] if rng.random() < 0.6] + [n for n in names if rng.random() < 0.3]
			rng.shuffle(extra)
			for n in extra:
				other.add_node(n, if_node_exists='ignore')
			expected = names + [n for n in other.nodes_dict if n not in names]
			if how == 'sum':
				return g.add(other, add_values_function=lambda x, y: None), expected
			import warnings
			with warnings.catch_warnings():
				warnings.simplefilter('ignore')
				return g.copy().append(other.__graph__() if rng.random() < 0.5 else other), expected
		if how == 'from_lists':
			pairs = [(rng.choice('abcdefg'), rng.choice('abcdefg')) for _ in range(rng.randint(0, 9))]
			return Graph.from_lists([p[0] for p in pairs], [p[1] for p in pairs], [None] * len(pairs)), list(dict.fromkeys(x for p in pairs for x in p))
		if how == 'random':
			n = rng.randint(0, 13)
			return Graph.random(n, connection_probability=0.2, cycle=rng.random() < 0.5, seed=1), [str(i + 1) for i in range(n)]
		lines = [f'line {i}' for i in range(rng.randint(1, 12))]
		return Graph.from_indented_text('r', lines), ['root'] + [str(i) for i in range(len(lines))]

	def extra(self, report, tier, seed):
		"""more nodes and parallel edges than there are small integers"""
		mon = Mon()
		rng = random.Random(seed)
		g = Graph()
		expected = []
		for i in range(700):
			mon.call('add_node', g.add_node, f'{i}', clause='large')
			expected.append(f'{i}')
			if i % 3 == 2:
				name = expected.pop(rng.randrange(len(expected)))
				mon.call('remove_node', g.remove_node, name, clause='large')
		for i in range(300):
			mon.call('connect', g.connect, expected[0], expected[1], id=i, clause='large')
		for h in (g, pickle.loads(pickle.dumps(g))):
			nodes = h.nodes
			rng.shuffle(nodes)
			mon.equal('large', [x.name for x in sorted(nodes)], expected, 'order of many nodes')
			mon.equal('large', (len(set(nodes)), len(set(h.get_node(expected[0]).outward_edges)), len(h.get_node(expected[1]).inward_edges)), (len(expected), 300, 300), 'nodes and edges in sets')
			for x in nodes[:25]:
				mon.check('large', x == h.get_node(x.name) and not x != h.get_node(x.name) and nodes.count(x) == 1, lambda: f'{x!r} among many')
		again = [pickle.loads(pickle.dumps(x)) for x in (258, 300)]
		g.connect(expected[2], expected[3], id=again[0])
		g.connect(expected[2], expected[3], id=int('258'), if_edge_exists='ignore')
		mon.equal('large', g.get_node(expected[2]).num_outward_edges, 1, 'edges with equal ids that are different objects')
		report['clauses'].update(mon.clauses)

	def fingerprint(self, case, mon):
		return super().fingerprint(case, mon) if len(case['nodes']) > 1 else None


PROP = C23()
