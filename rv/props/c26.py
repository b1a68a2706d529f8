import copy
import gc
import os
import pickle
import random
import sys
import threading
import warnings

from ..core import Prop
from .. import gen, observe, values
from ..driver import attributes, make_style
from ..env import Graph, NodeStyle, get_ancestors, get_descendants, parse_indentations
from ..objects import World, make_spec
from ..threads import Scheduler

# what reads a graph, and what changes it
FAMILY = ['ancestors', 'descendants', 'siblings', 'co_parents', 'parents', 'children', 'spouses', 'edges', 'in loop', 'loops with']
READS = FAMILY + [
	'relatives', 'relatives', 'distances', 'distances', 'loops', 'roots', 'lists', 'tree', 'tree of', 'source', 'snapshot', 'representation', 'copy', 'deepcopy', 'pickle', 'filter', 'sum', 'sum',
	'rebuild', 'similar', 'sorted', 'member'
]
WRITES = ['add', 'connect', 'remove', 'disconnect', 'set', 'render', 'render', 'append', 'refused', 'style']
ALONE = ['random', 'random', 'from lists', 'text', 'parse', 'object', 'traverse', 'traverse']


def kwargs(a, edge=False):
	kw = {k: copy.deepcopy(a[k]) for k in ('label', 'value', 'tooltip') if k in a}
	if a.get('style') is not None:
		kw['style'] = make_style(a['style'], edge)
	kw.update(copy.deepcopy(a.get('parameters', {})))
	return kw


def names(nodes):
	return [x.name for x in nodes]


class Session:
	"""runs steps on a graph and notes what is seen"""
	def __init__(self, program, g=None, shared=None, other=None):
		self.program = program
		self.other = other
		self.shared = shared or {}
		self.g = g
		self.notes = []

	def build(self, part):
		settings = observe.make_settings(part.get('settings', {}))
		if 'scheme' in self.shared:
			settings['colour_scheme'] = self.shared['scheme']
		g = Graph(**settings)
		for i, n in enumerate(part['nodes']):
			kw = kwargs(part['node'].get(repr(n), {}))
			if 'style' in self.shared and i % 2:
				kw['style'] = self.shared['style']
			g.add_node(n, **kw)
		for i, (s, e, id) in enumerate(part['edges']):
			g.connect(s, e, id=id, if_edge_exists='ignore', **kwargs(part['edge'].get(str(i), {}), True))
		return g

	def another(self):
		return self.build(self.program['other']) if self.other is None else self.other

	def __call__(self):
		if self.g is None:
			self.g = self.build(self.program['graph'])
		for kind, k in self.program['steps']:
			try:
				seen = self.step(kind, random.Random(k), self.g)
			except Exception as e:
				seen = f'{type(e).__name__}: {e}'
			self.notes.append((kind, repr(seen)))
		self.notes.append(('the end', repr((names(sorted(self.g.nodes)), names(self.g.nodes), list(self.g.edges_dict), len(set(self.g.nodes))))))
		return self.notes

	def step(self, kind, rng, g):
		nodes = g.nodes
		n = rng.choice(nodes) if nodes else None
		if n is None and kind in FAMILY:
			return None
		if kind in FAMILY:
			if kind == 'in loop':
				return [x.is_in_loop() for x in nodes]
			if kind == 'loops with':
				return [n.is_in_loop_with(x) for x in nodes], names(g.get_siblings(n))
			if kind == 'edges':
				return [[e.id for e in x.edges + x.outward_edges + x.inward_edges + g.get_edges(x)] for x in nodes]
			return [names(g.get_spouses(x) if kind == 'spouses' else getattr(x, kind)) for x in nodes]
		if n is None and kind in ('relatives', 'distances', 'tree of', 'remove', 'set', 'refused', 'member'):
			return None
		if kind == 'relatives':
			return [names(x) for x in (n.ancestors, n.descendants, n.siblings, n.co_parents, n.parents, n.children, g.get_spouses(n.name))] + [n.is_in_loop(), n.has_children(), len(n.has_parents())]
		if kind == 'distances':
			return [[(d, names(x)) for d, x in f(n).items()] for f in (g.get_ancestors, g.get_descendants)]
		if kind == 'loops':
			return names(g.loop_nodes), [g.is_node_in_loop(x.name) for x in nodes]
		if kind == 'roots':
			return names(g.roots), names(g.absolute_roots)
		if kind == 'lists':
			return names(nodes), [e.id for e in g.edges], list(g.edges_dict), names(g.leaves)
		if kind == 'tree':
			return g.get_tree_str()
		if kind == 'tree of':
			return n.get_tree_str()
		if kind == 'source':
			return g.get_graphviz_str(direction=rng.choice([None, 'TB']))
		if kind == 'snapshot':
			return observe.snapshot(g)
		if kind == 'representation':
			return observe.representation(g.__graph__())
		if kind == 'sorted':
			return names(sorted(nodes, reverse=True)), len(set(nodes)), len(set(g.edges))
		if kind == 'member':
			return n in g, n.name in g, 'nobody' in g, g.get_node(n.name) is n
		if kind in ('copy', 'deepcopy', 'pickle', 'filter', 'sum', 'rebuild'):
			if kind == 'copy':
				h = g.copy()
			elif kind == 'deepcopy':
				h = copy.deepcopy(g)
			elif kind == 'pickle':
				h = pickle.loads(pickle.dumps(g))
			elif kind == 'filter':
				h = g.filter([x.name for x in nodes if rng.random() < 0.4], direction=rng.choice(['to', 'from', 'to_and_from']), filter_type=rng.choice(['include', 'exclude']))
			elif kind == 'sum':
				pair = [g, self.another()]
				if rng.random() < 0.5:
					pair.reverse()
				h = pair[0].add(pair[1], add_values_function=lambda x, y: f'{x!r} and {y!r}')
			else:
				h = Graph(g.__graph__()) if rng.random() < 0.5 else Graph(g)
			drawn = h.render().source if rng.random() < 0.5 else None
			return observe.snapshot(h), drawn
		if kind == 'similar':
			return g.is_similar_to(self.another()), g.is_similar_to(g)
		if kind == 'add':
			return g.add_node(f'new {rng.randrange(4)}', if_node_exists='ignore', label='later').name
		if kind == 'connect':
			return g.connect(rng.choice(nodes), rng.choice(nodes), id=rng.choice([None, 0, 'x']), if_edge_exists='ignore', value=rng.choice([1, 2, 'v'])).id if nodes else None
		if kind == 'remove':
			g.remove_node(n)
			return names(g.nodes)
		if kind == 'disconnect':
			edges = g.edges
			if edges:
				g.disconnect(rng.choice(edges))
			return [e.id for e in g.edges]
		if kind == 'set':
			n.label = f'label {rng.randrange(5)}'
			n.value = rng.randrange(5)
			return n.label, n.value
		if kind == 'render':
			return g.render(direction=rng.choice([None, 'TB', 'RL'])).source, observe.snapshot(g)
		if kind == 'append':
			m, k = f'new {rng.randrange(6)}', rng.randrange(9)
			g.append(dict(
				nodes={m: dict(label='from a table')}, edges=[[m, m, dict(id=k)]] + [[m, x.name, dict(id=k)] for x in nodes[:2] if x.name != m], node_colours={x.name: 'red' for x in nodes[:2]},
				edge_colours={(m, m, k): rng.choice(['red', 'blue'])}, edge_styles={(m, m): dict(colour='navy')}
			))
			return g.render().source
		if kind == 'refused':
			return g.connect(n, 'nobody')
		if kind == 'style':
			style = NodeStyle(colour=rng.choice(['red', 'navy', '#abcdef']), shape='egg')
			return [x.get_graphviz_str() for x in (style, style.copy(), style.invert_colours(), pickle.loads(pickle.dumps(style)))]
		if kind == 'random':
			h = Graph.random(num_nodes=rng.randint(2, 9), connection_probability=rng.choice([0.3, 0.5]), cycle=rng.random() < 0.5, seed=rng.randrange(1000))
			return list(h.edges_dict)
		if kind == 'from lists':
			pool = self.program['graph']['nodes'] or ['a']
			rows = [[rng.choice(pool), rng.choice(pool), rng.choice([None, 'x'])] for _ in range(rng.randint(0, 8))]
			return observe.snapshot(Graph.from_lists(*[[r[i] for r in rows] for i in range(3)]))
		if kind in ('text', 'parse'):
			lines, level = [], 0
			unit = rng.choice(['\t', '  ', '    '])
			for i in range(rng.randint(1, 12)):
				lines.append(unit * level + f'line {rng.randrange(5)}')
				level = rng.randint(0, level + 1)
			return observe.snapshot(Graph.from_indented_text('root', lines)) if kind == 'text' else list(parse_indentations(lines))
		world = World(self.program['spec'])
		start = world.get(rng.choice(world.names))
		if kind == 'traverse':
			return [[(d, names(x)) for d, x in f(start, distance=True).items()] for f in (get_ancestors, get_descendants)]
		h = Graph.from_object(start)
		label = lambda x: x.label
		return [label(x) for x in h.nodes], [(label(e.start), label(e.end)) for e in h.edges]


class C26(Prop):
	id = 'C26'
	clauses = ('apart', 'readers', 'finished', 'unchanged', 'left-behind', 'shared', 'surroundings')
	rule = (
		'a case is two or three threads, each with a program of its own on its own graphs (equal names in all of them, at times with a common style or scheme) or all of them reading one graph, and a '
		'way of switching between them at lines or bytecodes of the package; what each one sees is compared with what it sees alone; non-trivial: the threads were switched at least twice'
	)
	assumptions = ('a thread that reaches no line of the package for a minute is stuck', 'one graph is changed (and rendered) by one thread only', 'only one thread moves at a time, and the switches are inside the package')
	quick = 900
	thorough = 20000
	shrink_keys = ()
	silence = 60

	def part(self, rng, pool, edges):
		t = gen.topology(rng, max_nodes=len(pool), max_edges=edges)
		renamed = dict(zip(t['nodes'], rng.sample(pool, len(t['nodes']))))
		p = rng.choice([0, 0.3])
		return dict(
			nodes=list(renamed.values()), edges=[[renamed[s], renamed[e], id] for s, e, id in t['edges']], settings=observe.settings(rng, p=rng.choice([0.1, 0.4])),
			node={repr(n): attributes(rng, p=p) for n in renamed.values()}, edge={str(i): attributes(rng, True, p=p) for i in range(len(t['edges']))}
		)

	def generate(self, rng, index, tier):
		pool = gen.name_pool(rng, 10, hostile=rng.choice([0, 0, 0.4]))
		kind = rng.choice(['apart', 'apart', 'apart', 'same', 'shared', 'readers', 'readers'])
		programs = []
		# one kind of work, and a switch at one line after the other
		close = rng.random() < 0.6
		work = rng.choice([FAMILY, READS] if kind == 'readers' else [READS, WRITES, ALONE])
		work = rng.choice([k for k in work if kind != 'readers' or k not in WRITES])
		graph = self.part(rng, pool, 16)
		for _ in range(rng.choice([2, 2, 2, 3])):
			kinds = rng.choice([READS, ALONE]) if rng.random() < 0.2 else READS + ([] if kind == 'readers' else WRITES + ALONE)
			if close:
				kinds = [work]
			elif rng.random() < 0.4:
				# little else, so that the same work meets
				kinds = rng.sample(kinds, min(len(kinds), 2))
			if kind == 'readers':
				kinds = [k for k in kinds if k not in WRITES] or READS
			spec = make_spec(rng, 8, 14)
			spec.update(small=True, kind='by-name')
			programs.append(dict(
				graph=graph if kind == 'readers' else self.part(rng, pool, 16), other=self.part(rng, pool, 8), spec=spec,
				steps=[[rng.choice(kinds), rng.randrange(10 ** 6)] for _ in range(rng.choice([1, 2] if close else [2, 4, 8]))]
			))
		if kind == 'same':
			programs = [programs[0]] * len(programs)
		return dict(
			kind=kind, programs=programs, mode=rng.choice(['once', 'once', 'once', 'twice', 'two', 'two'] if close else ['often', 'sometimes', 'seldom', 'line', 'function', 'opcodes', 'once']),
			seed=rng.randrange(10 ** 9), drawn=rng.random() < 0.5, close=close, rounds=25 if close else 3
		)

	def surroundings(self):
		return dict(
			random=random.getstate(), filters=list(warnings.filters), limit=sys.getrecursionlimit(), directory=os.getcwd(), traces=(sys.gettrace(), sys.getprofile()), output=(sys.stdout, sys.stderr),
			environment=dict(os.environ), collector=gc.isenabled(), threads=threading.active_count()
		)

	def execute(self, case, mon):
		programs = case['programs']
		with warnings.catch_warnings():
			warnings.simplefilter('ignore')
			# so that a filter that is put in front shows
			warnings.filterwarnings('ignore', message='no such warning')
			around = self.surroundings()
			shared = {}
			if case['kind'] == 'shared':
				shared = dict(style=NodeStyle(colour='navy', shape='egg'), scheme=observe.make_scheme(dict(scheme='pastel19')))
			g = other = None
			if case['kind'] == 'readers':
				g = Session(programs[0]).build(programs[0]['graph'])
				if case['drawn']:
					g.render()
				other = Session(programs[0]).build(programs[0]['other'])
				before = [observe.snapshot(x) for x in (g, other) if x is not None]
			recorder = Scheduler(0, 'record')
			alone = []
			for program in programs:
				results = recorder.run([Session(program, g, shared, other)], self.silence)
				mon.check('finished', results[0] is not None and results[0][0] == 'done', lambda: f'alone: {results[0]!r:.300}')
				alone.append(results[0][1])
			clause = 'readers' if g is not None else 'shared' if shared else 'apart'
			# fewer rounds of long programs
			for i in range(max(2, min(case['rounds'], 4_000_000 // (recorder.points + 1)))):
				scheduler = Scheduler(f"{case['seed']} {i}", case['mode'], recorder.seen)
				results = scheduler.run([Session(program, g, shared, other) for program in programs], self.silence)
				mon.event('switches', scheduler.switches > 0)
				mon.events['points'] += scheduler.points
				mon.events['switched'] += scheduler.switches
				mon.notes['let go'] += scheduler.free
				mon.state(scheduler.trail.hexdigest())
				for j, r in enumerate(results):
					how = f'thread {j + 1} of {len(results)}, {scheduler.switches} switches ({case["mode"]} {scheduler.target and scheduler.target[1:]!r})'
					mon.check('finished', r is not None and r[0] == 'done', lambda: f'{how}: {r!r:.300}')
					for step, (expected, seen) in enumerate(zip(alone[j], r[1])):
						mon.check(clause, seen == expected, lambda: f'{how}: step {step} ({expected[0]}) gave {self.difference(seen[1], expected[1])}')
			if g is not None:
				mon.equal('unchanged', [observe.snapshot(x) for x in (g, other) if x is not None], before, 'the graphs that were read')
			for k, x in self.surroundings().items():
				mon.check('surroundings', x == around[k], lambda: f'{k} of the program changed')
			for program, expected in zip(programs, alone):
				mon.equal('left-behind', Session(program, g, shared, other)(), expected, 'a program that is run once more alone')

	def difference(self, x, y):
		at = next((i for i, (a, b) in enumerate(zip(x, y)) if a != b), min(len(x), len(y)))
		return f'...{x[max(0, at - 40):at + 100]} instead of ...{y[max(0, at - 40):at + 100]}'

	def fingerprint(self, case, mon):
		return super().fingerprint(case, mon) if mon.events['switched'] >= 2 else None


PROP = C26()
