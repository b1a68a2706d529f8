import copy

from ..core import Prop
from .. import dot, gen, observe
from ..driver import Driver, expected_style, as_printed, printed, strict_value
from ..env import Graph
from ..model import Model

FUNCTIONS = {
	'max': lambda x, y: max(x, y, key=repr),
	'pair': lambda x, y: [x, y],
	'left': lambda x, y: x,
	'right': lambda x, y: y,
	'minus': lambda x, y: f'{x}-{y}',
	'none': lambda x, y: None,
	'zero': lambda x, y: 0,
}
VALUES = dict(number=[0, 1, 2, -3, 1.5, 0.0, 10], text=['', 'a', 'v', 'text "q"'], list=[[], [1], ['a', 'b'], [0]], bool=[True, False, 1, 0])


class C13(Prop):
	id = 'C13'
	clauses = ('nodes', 'edges', 'values', 'labels', 'styles', 'settings', 'operands', 'independent', 'belongs', 'consistent', 'overrides')
	rule = (
		'a case is two or three graphs over few common names and ids (also a graph with itself), with labels, styles and addable values that can be missing, zero or '
		'empty, added by + or add with a function, in chains; the sum is compared with the union of the models; non-trivial: both operands have nodes'
	)
	assumptions = ('values in both operands are of one addable type', 'value functions are only judged where both values are present')
	quick = 2500
	thorough = 70000
	shrink_keys = ('order',)

	def spec(self, rng, names, kind, full):
		nodes = rng.sample(names, rng.randint(0 if rng.random() < 0.2 else 1, len(names)))
		edges = []
		for _ in range(rng.randint(0, 8 if len(names) < 15 else 60)):
			if nodes:
				key = [rng.choice(nodes), rng.choice(nodes), rng.choice([None, None, None, 0, 1, '', 'e'])]
				if key not in [e[:3] for e in edges]:
					edges.append(key + [self.attributes(rng, kind, full, True)])
		overrides = []
		if rng.random() < 0.15 and nodes:
			overrides = [[n, rng.choice(gen.SHAPES)] for n in rng.sample(nodes, rng.randint(1, len(nodes)))]
		edge_overrides = []
		if rng.random() < 0.2 and edges:
			edge_overrides = [[e[:3], rng.choice([0.5, 4, 5, 7])] for e in rng.sample(edges, rng.randint(1, len(edges)))]
		return dict(
			nodes=[[n, self.attributes(rng, kind, full)] for n in nodes], edges=edges, overrides=overrides, edge_overrides=edge_overrides,
			settings={k: rng.random() < 0.5 for k in ('strict', 'ordering') if rng.random() < 0.5}, render=rng.random() < 0.15
		)

	def attributes(self, rng, kind, full, edge=False):
		a = {}
		if full or rng.random() < 0.7:
			a['value'] = rng.choice(VALUES[kind])
		if rng.random() < 0.5:
			a['label'] = rng.choice(['one', 'two', 'three "3"', '0'])
		if rng.random() < 0.4:
			a['style'] = dict(form=rng.choice(['dict', 'object']), args=gen.edge_style(rng) if edge else gen.node_style(rng))
		return a

	def generate(self, rng, index, tier):
		names = gen.name_pool(rng, rng.randint(15, 40) if rng.random() < 0.012 else rng.randint(1, 6), hostile=rng.choice([0, 0.4, 'family+int']))
		function = rng.choice([None, None, None] + list(FUNCTIONS))
		kind = rng.choice(list(VALUES))
		count = rng.choice([2, 2, 2, 3])
		graphs = [self.spec(rng, names, kind, function is not None) for _ in range(count)]
		order = list(range(count))
		if rng.random() < 0.15:
			order = [0, 0]
		elif count == 3 and rng.random() < 0.4:
			order = [0, 1, rng.choice([0, 1, 2]), 2]
		return dict(graphs=graphs, order=order, function=function, plus=rng.random() < 0.5, associate=rng.choice(['left', 'right']))

	def build(self, spec, mon):
		d = Driver(mon, settings=spec['settings'])
		for n, a in spec['nodes']:
			d.op_add(n, a)
		for i, (s, e, id, a) in enumerate(spec['edges']):
			d.op_conn(s, e, id, a, how=i)
		overrides = {('node', n): x for n, x in spec['overrides'] if n in d.m.nodes}
		overrides.update((('edge', tuple(e)), x) for e, x in spec['edge_overrides'] if tuple(e) in d.m.edges)
		tables = dict(
			node_styles={n: {'shape': x} for (kind, n), x in overrides.items() if kind == 'node'},
			edge_styles={e: {'line_width': x} for (kind, e), x in overrides.items() if kind == 'edge'}
		)
		if overrides:
			mon.call('append', d.g.append, dict(nodes=[], edges=[], **{k: t for k, t in tables.items() if t}))
		if spec['render']:
			mon.call('render', d.g.render)
			d.m = copy.deepcopy(d.m)
			for n, x in d.m.nodes.items():
				x.style = as_printed(d.objects[n])
			for k, x in d.m.edges.items():
				x.style = as_printed(d.edge_objects[k])
		return d.g, d.m, overrides, (spec['settings'].get('strict', False), spec['settings'].get('ordering', True))

	def union(self, x, y, function):
		result = Model()
		for target, left, right in ((result.nodes, x.nodes, y.nodes), (result.edges, x.edges, y.edges)):
			for key in list(left) + [k for k in right if k not in left]:
				if key in left and key in right:
					a, b = left[key], right[key]
					item = copy.deepcopy(a)
					if function is not None:
						item.value = FUNCTIONS[function](a.value, b.value)
					else:
						item.value = b.value if a.value is None else a.value if b.value is None else a.value + b.value
					item.label = a.label or b.label
					item.style = copy.deepcopy(a.style or b.style)
				else:
					item = copy.deepcopy((left if key in left else right)[key])
				target[key] = item
		return result

	def add(self, x, y, case, mon):
		(g, m, o, s), (h, n, p, _) = x, y
		before = observe.snapshot(g), observe.snapshot(h)
		if case['function'] is not None:
			r, _ = mon.call('add', g.add, h, add_values_function=FUNCTIONS[case['function']], clause='nodes')
		elif case['plus']:
			r, _ = mon.call('+', lambda a, b: a + b, g, h, clause='nodes')
		else:
			r, _ = mon.call('add', g.add, h, clause='nodes')
		mon.check('operands', r is not g and r is not h, 'the sum is one of the operands')
		after = observe.snapshot(g), observe.snapshot(h)
		mon.check('operands', before == after, lambda: f'an operand changed: {observe.difference(before[0], after[0])} {observe.difference(before[1], after[1])}')
		result = r, self.union(m, n, case['function']), {**p, **o}, s
		self.judge(result, mon)
		return result

	def judge(self, result, mon):
		g, m, overrides, (strict, ordering) = result
		mon.equal('nodes', sorted((n.name for n in g.nodes), key=repr), sorted(m.nodes, key=repr), 'nodes of the sum')
		mon.equal('edges', sorted((e.id for e in g.edges), key=repr), sorted(m.edges, key=repr), 'edges of the sum')
		edges = g.edges_dict
		for clause, objects, items in (('node', g.nodes_dict, m.nodes), ('edge', edges, m.edges)):
			for key, x in items.items():
				mon.equal('values', strict_value(objects[key].value), strict_value(x.value), f'value of {clause} {key!r} in the sum')
				label = x.label if clause == 'edge' else (x.label or str(key))
				mon.equal('labels', objects[key].label, label, f'label of {clause} {key!r} in the sum')
				mon.equal('styles', printed(objects[key].style), expected_style(x.style, clause == 'edge'), f'style of {clause} {key!r} in the sum')
		r = g.__graph__()
		mon.equal('settings', (r['strict'], r['ordering'], dot.parse(g.get_graphviz_str()).strict), (strict, ordering, strict), 'strictness and ordering of the sum')
		observe.belongs(g, mon, 'belongs')
		mon.equal('consistent', sorted((e.id for n in g.nodes for e in n.inward_edges), key=repr), sorted(m.edges, key=repr), 'inward edges of the sum')
		mon.equal('consistent', sorted((e.id for n in g.nodes for e in n.outward_edges), key=repr), sorted(m.edges, key=repr), 'outward edges of the sum')
		mon.state((m.shape(), strict, ordering))

	def execute(self, case, mon):
		built = [self.build(s, mon) for s in case['graphs']]
		order = [i for i in case['order'] if i < len(built)]
		if not order:
			return
		if case['associate'] == 'left' or case['function'] is not None:
			total = built[order[0]]
			for i in order[1:]:
				total = self.add(total, built[i], case, mon)
		else:
			total = built[order[-1]]
			for i in reversed(order[:-1]):
				total = self.add(built[i], total, case, mon)
		g = total[0]
		if len(order) == 1:
			return
		snapshots = [observe.snapshot(x[0]) for x in built]
		# edits of the sum, in place where styles allow it, reach no operand
		drawing = self.draw(g, total[2], mon)
		for x in list(g.nodes) + list(g.edges):
			x.style.colour = 'navy'
			x.value = 'changed'
			x.label = 'changed'
		g.add_node('later')
		for n in list(g.nodes)[:2]:
			g.remove_node(n)
		after = [observe.snapshot(x[0]) for x in built]
		for a, b in zip(snapshots, after):
			mon.check('independent', a == b, lambda: f'an operand changed with the sum: {observe.difference(a, b)}')
		# edits of the operands do not reach another sum of them
		other = built[0][0].add(built[-1][0]) if case['function'] is None else built[0][0].add(built[-1][0], FUNCTIONS[case['function']])
		watched = observe.snapshot(other)
		for x in built:
			x[0].render()
			for item in list(x[0].nodes) + list(x[0].edges):
				item.style.colour = 'gold'
				item.value = 'changed'
				item.label = 'changed'
			x[0].add_node('later operand')
			x[0].remove_node(x[0].nodes[0])
		now = observe.snapshot(other)
		mon.check('independent', watched == now, lambda: f'the sum changed with an operand: {observe.difference(watched, now)}')

	def draw(self, g, overrides, mon):
		source, _ = mon.call('render', g.render, clause='overrides')
		edges = g.edges_dict
		for (kind, key), x in overrides.items():
			shown = (g.nodes_dict if kind == 'node' else edges)[key].style.get_graphviz_str()
			mon.check('overrides', f'"shape"="{x}"' in shown if kind == 'node' else f'"penwidth"="{x}"' in shown, lambda: f'{kind} {key!r} of the sum should be drawn with {x}: {shown}')
		return source

	def fingerprint(self, case, mon):
		import json
		return json.dumps(case, sort_keys=True) if all(g['nodes'] for g in case['graphs'][:2]) else None


PROP = C13()
