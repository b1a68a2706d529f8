import copy

from ..core import Prop
from .. import gen, observe
from ..driver import Driver, attributes, expected_style

MUTATIONS = (
	'none', 'none', 'order', 'drop-node', 'add-node', 'rename-node', 'drop-edge', 'add-edge', 'edge-id', 'reverse-edge', 'move-edge', 'node-value', 'edge-value', 'node-style', 'edge-style',
	'node-parameter', 'edge-parameter', 'strict', 'ordering', 'label', 'detour', 'swap-values', 'swap-edges'
)
STYLE_CHANGE = dict(opacity=0.75, font='times', text_size=17, text_colour='gold')


def mutate(rng, spec, kind):
	"""changes a specification in one place; returns False when there is no such place"""
	nodes, edges = spec['nodes'], spec['edges']
	if kind in ('none', 'order', 'detour'):
		pass
	elif kind == 'add-node':
		nodes.append(['added', {}])
	elif kind == 'strict':
		spec['settings']['strict'] = not spec['settings'].get('strict', False)
	elif kind == 'ordering':
		spec['settings']['ordering'] = not spec['settings'].get('ordering', True)
	elif kind.endswith('node') or kind.startswith('node') or kind in ('label', 'swap-values'):
		if not nodes:
			return False
		x = rng.choice(nodes)
		if kind == 'drop-node':
			nodes.remove(x)
			spec['edges'] = [e for e in edges if x[0] not in e[:2]]
		elif kind == 'rename-node':
			old, x[0] = x[0], 'renamed'
			for e in edges:
				e[:2] = ['renamed' if n == old else n for n in e[:2]]
		elif kind == 'node-value':
			x[1]['value'] = gen.value(rng)
		elif kind == 'node-parameter':
			change_parameter(rng, x[1])
		elif kind == 'label':
			x[1]['label'] = 'another label'
		elif kind == 'node-style':
			change_style(rng, x[1], dict(STYLE_CHANGE, shape='hexagon', shape_style='dotted', fill_colour='navy', border_colour='navy'))
		elif kind == 'swap-values':
			y = rng.choice(nodes)
			vx, vy = x[1].get('value'), y[1].get('value')
			x[1]['value'], y[1]['value'] = vy, vx
	elif kind == 'add-edge':
		if not nodes:
			return False
		edges.append([rng.choice(nodes)[0], rng.choice(nodes)[0], 'added', {}])
	else:
		if not edges:
			return False
		x = rng.choice(edges)
		if kind == 'drop-edge':
			edges.remove(x)
		elif kind == 'edge-id':
			x[2] = rng.choice([i for i in (None, 0, '', 'other', 1, 'None') if i != x[2]])
		elif kind == 'reverse-edge':
			x[0], x[1] = x[1], x[0]
		elif kind == 'move-edge':
			x[rng.randrange(2)] = rng.choice(nodes)[0]
		elif kind == 'edge-value':
			x[3]['value'] = gen.value(rng)
		elif kind == 'edge-parameter':
			change_parameter(rng, x[3])
		elif kind == 'edge-style':
			change_style(rng, x[3], dict(STYLE_CHANGE, arrow_size=3, line_width=7, label_style='right', colour='navy'))
		elif kind == 'swap-edges':
			y = rng.choice(edges)
			x[3], y[3] = y[3], x[3]
	keys = [tuple(e[:3]) for e in spec['edges']]
	return len(set(keys)) == len(keys)


def change_parameter(rng, a):
	p = a.setdefault('parameters', {})
	if 'p' in p and rng.random() < 0.3:
		del p['p']
	else:
		p[rng.choice(['p', 'q'])] = gen.value(rng)


def change_style(rng, a, options):
	if a.get('style') is None:
		a['style'] = dict(form='dict', args={})
		return
	if rng.random() < 0.2:
		del a['style']
		return
	key = rng.choice(sorted(options))
	a['style']['args'][key] = options[key]


def turned(a):
	"""the same attributes, with parameters and dictionaries in the opposite order"""
	a = dict(a)
	if a.get('parameters'):
		a['parameters'] = backwards(a['parameters'])
	if isinstance(a.get('value'), dict):
		a['value'] = backwards(a['value'])
	return a


def backwards(x):
	if isinstance(x, dict):
		return {k: backwards(v) for k, v in reversed(x.items())}
	return x


class C11(Prop):
	id = 'C11'
	clauses = ('similar', 'different', 'symmetric', 'reflexive', 'copies', 'parts', 'unchanged', 'answers')
	rule = (
		'a case is a specification of a graph and a copy of it changed in zero to two places (22 kinds of change) or built in another order or by a detour; '
		'expected similarity is equality of the specifications; non-trivial: at least one node'
	)
	assumptions = ('values and parameters have a boolean equality', 'extra parameters are given by name, two styles are equal when they print the same attributes')
	quick = 5000
	thorough = 150000
	shrink_keys = ('edges',)

	def generate(self, rng, index, tier):
		t = gen.topology(rng, **gen.sizes(rng, 5, 8, big=0.03), hostile=rng.choice([0, 0.3, 'family+int']))
		p = rng.choice([0.2, 0.6])
		a = dict(
			nodes=[[n, attributes(rng, p=p)] for n in t['nodes']], edges=[e + [attributes(rng, True, p=p)] for e in t['edges']],
			settings={k: rng.random() < 0.5 for k in ('strict', 'ordering') if rng.random() < 0.4}
		)
		kinds = []
		b = copy.deepcopy(a)
		for _ in range(rng.choice([1, 1, 1, 2])):
			kind = rng.choice(MUTATIONS)
			candidate = copy.deepcopy(b)
			if mutate(rng, candidate, kind):
				b = candidate
				kinds.append(kind)
		if 'order' in kinds:
			rng.shuffle(b['nodes'])
			rng.shuffle(b['edges'])
		return dict(a=a, b=b, kinds=kinds, render=rng.random() < 0.2, other=rng.random() < 0.3, unrelated=rng.random() < 0.05 and [gen.topology(rng, 4, 5) for _ in range(2)])

	def build(self, spec, mon, detour=False, other=False):
		"""other: the same content given in another way, parameters in another order and yes and no as numbers"""
		if other:
			spec = dict(
				settings={k: int(v) for k, v in reversed(spec['settings'].items())}, nodes=[[n, turned(a)] for n, a in spec['nodes']], edges=[[*e[:3], turned(e[3])] for e in spec['edges']]
			)
		d = Driver(mon, settings=spec['settings'])
		if detour:
			d.op_add('detour')
		for i, (n, a) in enumerate(spec['nodes']):
			d.op_add(n, a)
			if detour:
				d.op_conn('detour', n, i)
		if detour:
			d.op_rmnode('detour')
		for i, (s, e, id, a) in enumerate(spec['edges']):
			d.op_conn(s, e, id, a, how=i)
		return d

	@staticmethod
	def content(spec):
		"""what similarity is about"""
		def item(a, edge=False):
			style = a.get('style')
			return a.get('value'), expected_style(style, edge), a.get('parameters', {})
		return (
			{n: item(a) for n, a in spec['nodes']}, {(s, e, i): item(a, True) for s, e, i, a in spec['edges']},
			spec['settings'].get('strict', False), spec['settings'].get('ordering', True)
		)

	def execute(self, case, mon):
		if case.get('unrelated'):
			case = dict(case)
			for key, t in zip('ab', case['unrelated']):
				case[key] = dict(nodes=[[n, {}] for n in t['nodes']], edges=[e + [{}] for e in t['edges']], settings={})
		a, b = self.build(case['a'], mon), self.build(case['b'], mon, 'detour' in case['kinds'], case.get('other'))
		expected = self.content(case['a']) == self.content(case['b'])
		mon.event('pair', case['kinds'], expected)
		if case['render'] and expected and case['kinds'] == ['none']:
			# the same specification drawn twice stays similar; a drawn one keeps being similar to itself
			mon.call('render', a.g.render)
			mon.call('render', b.g.render)
		before = observe.snapshot(a.g), observe.snapshot(b.g)
		answers = []
		for x, y in ((a, b), (b, a)):
			answer, _ = mon.call('is_similar_to', x.g.is_similar_to, y.g, clause='answers')
			mon.check('answers', answer is True or answer is False, lambda: f'answer is {answer!r}')
			answers.append(answer)
		mon.equal('symmetric', answers[1], answers[0], f'similarity asked the other way after {case["kinds"]}')
		mon.equal('similar' if expected else 'different', answers[0], expected, f'similarity after {case["kinds"]}')
		for d in (a, b):
			answer, _ = mon.call('is_similar_to', d.g.is_similar_to, d.g, clause='reflexive')
			mon.equal('reflexive', answer, True, 'similarity of a graph with itself')
			g = d.g.copy()
			mon.equal('copies', (d.g.is_similar_to(g), g.is_similar_to(d.g)), (True, True), 'similarity with a copy')
		self.compare_parts(case, a, b, mon)
		other = b.g.copy()
		mon.equal('copies', a.g.is_similar_to(other), expected, 'similarity with a copy of the other')
		mon.check('unchanged', before == (observe.snapshot(a.g), observe.snapshot(b.g)), 'a graph changed by being compared')
		mon.state((a.m.shape(), case['kinds'], expected))

	def compare_parts(self, case, a, b, mon):
		"""single nodes (with their edges) and single edges of the two graphs"""
		(na, ea), (nb, eb) = self.content(case['a'])[:2], self.content(case['b'])[:2]

		def ask(x, y, expected, what):
			answer, _ = mon.call('is_similar_to', x.is_similar_to, y, clause='answers')
			mon.check('answers', answer is True or answer is False, lambda: f'answer is {answer!r}')
			mon.equal('parts', answer, expected, what)

		def around(edges, n):
			return {k: v for k, v in edges.items() if n in k[:2]}

		previous = None
		for n in list(na)[:8]:
			x = a.g.get_node(n)
			for m in (n, previous):
				if m in nb:
					expected = m == n and na[n] == nb[n] and around(ea, n) == around(eb, n)
					y = b.g.get_node(m)
					ask(x, y, expected, f'similarity of node {n!r} with node {m!r} of the other graph')
					ask(y, x, expected, f'similarity of node {m!r} of the other graph with node {n!r}')
			previous = n
		previous = None
		for k in list(ea)[:10]:
			for j in (k, previous):
				if j in eb:
					expected = j == k and ea[k] == eb[k]
					ask(a.edge_objects[k], b.edge_objects[j], expected, f'similarity of edge {k!r} with edge {j!r} of the other graph')
					ask(b.edge_objects[j], a.edge_objects[k], expected, f'similarity of edge {j!r} of the other graph with edge {k!r}')
			previous = k

	def fingerprint(self, case, mon):
		return super().fingerprint(case, mon) if case['a']['nodes'] else None


PROP = C11()
