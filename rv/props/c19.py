import copy
import decimal
import fractions
import time

from ..core import Prop, Mon, Violation
from .. import env, gen, observe
from ..driver import Driver, attributes, make_style, as_printed, printed, program, strict_value
from ..env import Graph, Node, NodeStyle, EdgeStyle


class Odd:
	"""a value of a user's class that cannot be compared, added or multiplied"""
	def __init__(self, name='odd'):
		self.name = name

	def __eq__(self, other):
		raise RuntimeError('cannot be compared')

	__hash__ = None

	def __mul__(self, other):
		raise RuntimeError('cannot be multiplied')

	__rmul__ = __mul__

	def __bool__(self):
		raise RuntimeError('is neither true nor false')

	def __str__(self):
		return f'odd {self.name}'

	__repr__ = __str__


ODD = dict(
	decimal=decimal.Decimal('1.5'), fraction=fractions.Fraction(1, 3), complex=1 + 2j, nan=float('nan'), inf=float('inf'), big=10**400, bytes=b'x', tuple=(1, 2), set={1},
	none=None, odd=Odd(), ellipsis=..., cls=int, function=len, negative=-0.0, text='12', long='x' * 500
)


def observed(item):
	"""everything a user gave, without comparing values"""
	return dict(
		label=item.label, value=id(item.value), shown=repr(item.value), parameters=observe.parameters(item), frozen=item.is_frozen, tooltip=item.get_graphviz_str().count('tooltip=')
	)


def content(g):
	return dict(
		nodes=[(n.name, observed(n)) for n in g.nodes], edges=[(e.id, observed(e)) for e in g.edges],
		inward=[(n.name, [e.id for e in n.inward_edges]) for n in g.nodes], outward=[(n.name, [e.id for e in n.outward_edges]) for n in g.nodes],
		background=g.background_colour.hexadecimal, objects=[id(x) for x in g.nodes + g.edges]
	)


class C19(Prop):
	id = 'C19'
	clauses = ('succeeds', 'repeats', 'content-kept', 'styles-kept', 'arguments-kept', 'empty', 'copy-succeeds', 'ladder', 'deep', 'ways')
	rule = (
		'a case is a graph of any shape with values of any kind, explicit styles (some shared between elements), global styles, override tables and settings that is rendered '
		'between edits and copies; the picture, the content and every style object the user holds are compared before and after; non-trivial: at least one node'
	)
	assumptions = ('label converters given by the user do not fail', 'styles and schemes are valid')
	quick = 2000
	thorough = 60000
	shrink_keys = ('ops', 'edges', 'nodes')
	step_limit = 60_000_000

	def generate(self, rng, index, tier):
		big = rng.random() < 0.03
		t = gen.topology(rng, max_nodes=40 if big else 8, max_edges=60 if big else 16, hostile=rng.choice([0, 0, 0.5, 'family+int']))
		p = rng.choice([0, 0.3, 0.6])
		settings = observe.settings(rng, p=rng.choice([0.1, 0.4]))
		if isinstance(settings.get('node_style'), dict) and rng.random() < 0.3:
			settings['node_style'] = dict(form='dict', args=dict(shape=rng.choice(['auto', 'AUTO', 'automatic', 'box'])))
		node = {repr(n): attributes(rng, p=p) for n in t['nodes']}
		edge = {str(i): attributes(rng, True, p=p) for i in range(len(t['edges']))}
		for a in list(node.values()) + list(edge.values()):
			if rng.random() < 0.25:
				a['odd'] = rng.choice(list(ODD))
			if rng.random() < 0.15:
				a['shared'] = True
		overrides = None
		if rng.random() < 0.35:
			some = lambda items: [x for x in items if rng.random() < 0.3]
			overrides = dict(
				node_styles=[[n, gen.node_style(rng)] for n in some(t['nodes'])], node_colours=[[n, rng.choice(gen.COLOURS)] for n in some(t['nodes'])],
				edge_styles=[[i, gen.edge_style(rng)] for i in some(range(len(t['edges'])))], edge_colours=[[i, rng.choice(gen.COLOURS)] for i in some(range(len(t['edges'])))],
				as_object=rng.random() < 0.4
			)
		weights = dict(bad=0, render=8, copy=5, set=4, setedge=4, Node=3, move=2, readd=6)
		return dict(
			kind=t['kind'], nodes=t['nodes'], edges=t['edges'], node=node, edge=edge, settings=settings, overrides=overrides, first=rng.random() < 0.5,
			ops=program(rng, rng.choice([0, 0, 4, 10]), t['nodes'] + ['extra'], weights, p=0.3)
		)

	def execute(self, case, mon):
		settings = observe.make_settings(case['settings'])
		self.held = []      # style objects and dictionaries the user holds
		for key in ('node_style', 'edge_style'):
			if settings.get(key) is not None:
				self.hold(f'global {key}', settings[key])
		g = Graph(**settings)
		d = Driver(mon, graph=g)
		d.overwrite = bool(settings.get('style_overwrite_allowed'))
		shared = {False: NodeStyle(colour='gold', shape='box'), True: EdgeStyle(colour='navy', line_width=2)}
		for edge in (False, True):
			self.hold('shared style', shared[edge])
		for n in case['nodes']:
			self.add(g, d, mon, case['node'].get(repr(n), {}), shared, name=n)
		for i, (s, e, id) in enumerate(case['edges']):
			if s in d.m.nodes and e in d.m.nodes:
				self.add(g, d, mon, case['edge'].get(str(i), {}), shared, key=(s, e, id))
		if case['overrides']:
			self.override(g, d, case, mon)
		if case['first']:
			self.render(d.g, mon)
			self.adopt(d)
		for op in case['ops']:
			if op[0] == 'render':
				self.render(d.g, mon)
				self.adopt(d)
			else:
				before = content(d.g) if op[0] == 'copy' else None
				old = d.g
				outcome = d.run(op)
				mon.event(f'{op[0]}:{outcome}')
				if before is not None:
					mon.equal('copy-succeeds', content(old), before, 'content of a graph that was copied')
		source = self.render(d.g, mon)
		mon.equal('ways', self.ways(d.g, mon), source, 'source drawn in another way')
		for n in list(d.m.nodes):
			d.op_rmnode(n)
		self.render(d.g, mon, 'empty')
		mon.state((case['nodes'], case['edges'], case['settings'].get('stylist')))

	def hold(self, what, x):
		self.held.append((what, x, self.state(x)))

	def state(self, x):
		return strict_value(x) if isinstance(x, dict) else observe.style_state(x)

	def add(self, g, d, mon, a, shared, name=None, key=None):
		edge = key is not None
		kw = d._kwargs({k: v for k, v in a.items() if k not in ('odd', 'shared')}, edge)
		if 'odd' in a:
			kw['value'] = ODD[a['odd']]
		if a.get('shared'):
			kw['style'] = shared[edge]
		elif kw.get('style') is not None:
			self.hold(f'style of {key if edge else name!r}', kw['style'])
		model = d._item_kwargs(a)
		model.pop('value', None)
		if edge:
			x, _ = mon.call('connect', g.connect, key[0], key[1], id=key[2], **kw)
			d.m.connect(*key, **model)
			d.edge_objects[key] = x
			item = d.m.edges[key]
		else:
			if d.constructors and len(d.ever) % d.constructors == 0:
				x, _ = mon.call('Node', Node, graph=g, name=name, **kw)
			else:
				x, _ = mon.call('add_node', g.add_node, name, **kw)
			d.m.add_node(name, **model)
			d._new_node(name, x)
			item = d.m.nodes[name]
		item.style = as_printed(x)

	def override(self, g, d, case, mon):
		o = case['overrides']
		make = lambda args, edge: make_style(dict(form='object' if o['as_object'] else 'dict', args=args), edge)
		r = dict(
			nodes=[], edges=[], node_styles={n: make(s, False) for n, s in o['node_styles'] if n in d.m.nodes},
			node_colours={n: c for n, c in o['node_colours'] if n in d.m.nodes}
		)
		keys = {i: tuple(case['edges'][i]) for i in range(len(case['edges']))}
		r['edge_styles'] = {keys[i]: make(s, True) for i, s in o['edge_styles'] if keys.get(i) in d.m.edges}
		r['edge_colours'] = {keys[i]: c for i, c in o['edge_colours'] if keys.get(i) in d.m.edges}
		for table in ('node_styles', 'edge_styles'):
			for key, s in r[table].items():
				self.hold(f'override of {key!r}', s)
		mon.call('append', g.append, r)

	def adopt(self, d):
		for items, objects in ((d.m.nodes, d.objects), (d.m.edges, d.edge_objects)):
			for key, x in items.items():
				x.style = as_printed(objects[key])

	def render(self, g, mon, clause='succeeds'):
		before = content(g)
		first, _ = mon.call('render', g.render, clause=clause)
		after = content(g)
		mon.check('content-kept', after == before, lambda: f'rendering changed {observe.difference(before, after)}')
		again, _ = mon.call('render', g.render, clause=clause)
		mon.check('repeats', again.source == first.source, lambda: f'the second source differs: {self.first_difference(first.source, again.source)}')
		mon.check('content-kept', content(g) == before, lambda: f'rendering again changed {observe.difference(before, content(g))}')
		for what, x, state in self.held:
			clause = 'arguments-kept' if isinstance(x, dict) else 'styles-kept'
			mon.check(clause, self.state(x) == state, lambda: f'rendering changed the {what} that the user holds: {state!r:.300} became {self.state(x)!r:.300}')
		return first.source

	def ways(self, g, mon):
		"""other calls in between and other ways of drawing do not matter"""
		mon.call('render', g.render, direction='BT', pad=1, clause='succeeds')
		mon.call('get_graphviz_str', g.get_graphviz_str, height=3, width=4, direction='TB')
		copy.deepcopy(g).render()
		return mon.call('get_graphviz_source', g.get_graphviz_source, direction=None, dpi=None)[0].source

	def first_difference(self, a, b):
		for x, y in zip(a.split('\n'), b.split('\n')):
			if x != y:
				return f'{x!r:.300} became {y!r:.300}'
		return f'{len(a)} and {len(b)} characters'

	def extra(self, report, tier, seed):
		"""sizes at which exponential time or recursion shows"""
		mon = Mon()
		from ..core import STEPS, StepLimit

		def limited(clause, what, limit, f):
			STEPS.arm(limit)
			try:
				return mon.call(what, f, clause=clause)[0]
			except (StepLimit, RecursionError) as e:
				raise Violation(clause, f'{what}: {type(e).__name__}, more than {limit} steps or too deep')
			finally:
				STEPS.disarm()
		for stylist in ('pensieve', 'random'):
			g = Graph(stylist=stylist)
			g.add_node('n0')
			for i in range(0, 36, 3):
				for k in (1, 2, 3):
					g.add_node(f'n{i + k}')
				g.connect(f'n{i}', f'n{i + 1}')
				g.connect(f'n{i}', f'n{i + 2}')
				g.connect(f'n{i + 1}', f'n{i + 3}')
				g.connect(f'n{i + 2}', f'n{i + 3}')
			# layers: every node of one is connected with every node of the next
			for layer in range(1, 12):
				for k in range(3):
					g.add_node(f'l{layer}.{k}')
					for j in range(3):
						if layer > 1:
							g.connect(f'l{layer - 1}.{j}', f'l{layer}.{k}')
			first = limited('ladder', f'render of diamonds in {stylist}', 30_000_000, lambda: g.render().source)
			mon.equal('ladder', g.render().source, first, 'second picture of diamonds')
			for n in (71, 64) if stylist == 'pensieve' else (101, 128):
				for inward in (False, True):
					g = Graph(stylist=stylist)
					g.add_node('hub')
					for i in range(n):
						g.add_node(f'f{i}')
						g.connect(*((f'f{i}', 'hub') if inward else ('hub', f'f{i}')))
					limited('ladder', f'render of a node with {n} {"parents" if inward else "children"} in {stylist}', 60_000_000, lambda: g.render().source)
			g = Graph(stylist=stylist)
			size = 300 if stylist == 'random' else 230
			for i in range(size):
				g.add_node(str(i))
				if i:
					g.connect(str(i - 1), str(i))
			import sys
			old = sys.getrecursionlimit()
			try:
				# as deep a graph as the interpreter's stack, without the cost of walking thousands of nodes
				sys.setrecursionlimit(old if stylist == 'random' else max(220, self.depth() + 160))
				limited('deep', f'render of a chain in {stylist}', 200_000_000, lambda: g.render().source)
			finally:
				sys.setrecursionlimit(old)
		report['clauses'].update(mon.clauses)

	def depth(self):
		import sys
		frame, n = sys._getframe(), 0
		while frame:
			frame, n = frame.f_back, n + 1
		return n

	def fingerprint(self, case, mon):
		return super().fingerprint(case, mon) if case['nodes'] else None


PROP = C19()
