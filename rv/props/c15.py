import random
from collections import Counter

from ..core import Prop, Mon
from .. import dot, gen, observe
from ..env import Graph


class C15(Prop):
	id = 'C15'
	clauses = (
		'list-nodes', 'list-edges', 'list-labels', 'consistent', 'strict', 'random-nodes', 'random-permitted', 'random-none', 'random-all', 'random-repeatable', 'arguments-kept', 'frequency'
	)
	rule = (
		'a case is three lists (up to 300 positions) over few names (repeated pairs, self-loops, missing and equal labels) and a random graph request (sizes 0-40, start indices, probabilities '
		'below 0 to above 1, seeds, flags); non-trivial: at least one edge is asked for or one node'
	)
	quick = 2000
	thorough = 100000
	shrink_keys = ('rows',)

	def generate(self, rng, index, tier):
		names = gen.name_pool(rng, rng.randint(1, 6), hostile=rng.choice([0, 0.5, 'family']))
		if rng.random() < 0.1:
			names += [1, 2, 0]
		labels = [None, None, 'one', 'two', 'two', '', '0', 'a "b"', 'x\\'] + ([3] if rng.random() < 0.2 else [])
		rows = [[rng.choice(names), rng.choice(names), rng.choice(labels)] for _ in range(rng.choice([0, 1, 2, 5, 12, 12] if rng.random() < 0.98 else [70, 150, 300]))]
		return dict(
			rows=rows, strict=rng.choice([None, True, False]), tuples=rng.random() < 0.2,
			random=dict(
				num_nodes=rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 11] + ([16] if rng.random() < 0.05 else []) + ([25, 40] if rng.random() < 0.03 else [])), start_index=rng.choice([1, 1, 0, -3, 9, 98, 1000]),
				connection_probability=rng.choice([-1, 0, 0.0, 0.1, 0.3, 0.5, 0.9, 1, 1.0, 2.5]), cycle=rng.random() < 0.5, strict=rng.random() < 0.3, ordering=rng.random() < 0.5,
				seed=rng.choice([0, 1, 42, 7, rng.randrange(10 ** 6), None])
			), defaults=rng.random() < 0.3
		)

	def execute(self, case, mon):
		self.lists(case, mon)
		self.random(case, mon)

	def lists(self, case, mon):
		rows = case['rows']
		start, end, edge = ([r[i] for r in rows] for i in range(3))
		if case['tuples']:
			start, end, edge = tuple(start), tuple(end), tuple(edge)
		before = repr((start, end, edge))
		kw = {} if case['strict'] is None else {'strict': case['strict']}
		g, warned = mon.call('from_lists', Graph.from_lists, start=start, end=end, edge=edge, clause='list-edges', **kw)
		mon.equal('arguments-kept', repr((start, end, edge)), before, 'the lists')
		mon.equal('list-nodes', len(warned), 0, 'warnings')
		names = []
		for s, e, _ in rows:
			for n in (s, e):
				if n not in names:
					names.append(n)
		mon.equal('list-nodes', Counter(n.name for n in g.nodes), Counter(names), 'nodes')
		mon.equal('list-edges', Counter((e.start.name, e.end.name) for e in g.edges), Counter((s, e) for s, e, _ in rows), 'edges')
		mon.equal('list-edges', len({e.id for e in g.edges}), len(rows), 'different edge ids')
		mon.equal('list-labels', Counter((e.start.name, e.end.name, e.label) for e in g.edges), Counter(map(tuple, rows)), 'edges with labels')
		observe.belongs(g, mon, 'consistent')
		mon.equal('consistent', sum(len(n.inward_edges) for n in g.nodes), len(rows), 'inward edges')
		mon.equal('consistent', sum(len(n.outward_edges) for n in g.nodes), len(rows), 'outward edges')
		drawing = dot.parse(g.get_graphviz_str())
		mon.equal('strict', drawing.strict, bool(case['strict']), 'strictness')
		mon.equal('list-edges', len(drawing.edges), len(rows), 'edges drawn')
		mon.state(rows)

	def random(self, case, mon):
		kw = dict(case['random'])
		if case['defaults']:
			kw = {k: v for k, v in kw.items() if k in ('num_nodes', 'seed') or k == 'cycle' and v}
		g, _ = mon.call('random', Graph.random, clause='random-nodes', **kw)
		size, first, p, cycle = kw['num_nodes'], kw.get('start_index', 1), kw.get('connection_probability', 0.5), kw.get('cycle', False)
		numbers = range(first, first + size)
		mon.equal('random-nodes', [n.name for n in g.nodes], [str(i) for i in numbers], 'nodes of the random graph')
		permitted = {(str(i), str(j)) for i in numbers for j in numbers if cycle or i < j}
		edges = g.edges
		pairs = [(e.start.name, e.end.name) for e in edges]
		mon.equal('random-permitted', len(set(pairs)), len(pairs), 'different edges')
		mon.equal('random-permitted', set(pairs) - permitted, set(), 'edges that are not permitted')
		if p <= 0:
			mon.equal('random-none', pairs, [], 'edges at probability 0')
		if p >= 1:
			mon.equal('random-all', set(pairs), permitted, 'edges at probability 1')
		mon.equal('strict', dot.parse(g.get_graphviz_str()).strict, kw.get('strict', False), 'strictness')
		mon.equal('strict', g.__graph__()['ordering'], kw.get('ordering', True), 'ordering')
		observe.belongs(g, mon, 'consistent')
		if kw.get('seed') is not None:
			random.random()
			h, _ = mon.call('random', Graph.random, clause='random-repeatable', **kw)
			mon.equal('random-repeatable', [e.id for e in h.edges], [e.id for e in edges], 'edges of the same random graph')
			mon.equal('random-repeatable', h.get_graphviz_str(), g.get_graphviz_str(), 'the same random graph')
		mon.state((sorted(pairs), size))

	def extra(self, report, tier, seed):
		"""over many seeds, as many edges as the probability says (eight standard deviations)"""
		mon = Mon()
		for p in (0.1, 0.5, 0.9):
			for cycle in (False, True):
				count = total = 0
				for i in range(40):
					g = Graph.random(num_nodes=14, connection_probability=p, cycle=cycle, seed=1000 * seed + i)
					count += sum(n.num_outward_edges for n in g.nodes)
					total += 14 * 14 if cycle else 14 * 13 // 2
				deviation = (total * p * (1 - p)) ** 0.5
				mon.check('frequency', abs(count - total * p) <= 8 * deviation, f'{count} of {total} edges at probability {p} (cycle={cycle})')
		seeds = {tuple(k for n in Graph.random(num_nodes=10, seed=i).nodes for k in n.outward_edge_ids) for i in range(20)}
		mon.check('frequency', len(seeds) > 10, 'different seeds give the same graph')
		report['clauses'].update(mon.clauses)

	def fingerprint(self, case, mon):
		return super().fingerprint(case, mon) if case['rows'] or case['random']['num_nodes'] else None


PROP = C15()
