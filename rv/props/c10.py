import copy
import pickle
import random

from ..core import Prop, Mon
from .. import env, gen, observe
from ..driver import Driver, attributes, compare_structure, compare_content, make_overrides, program

HOWS = ('copy', 'copy.copy', 'deepcopy', 'pickle2', 'pickle4', 'pickle5', 'twice', 'pickle of a copy')


def duplicate(g, how):
	if how == 'copy':
		return g.copy()
	if how == 'copy.copy':
		return copy.copy(g)
	if how == 'deepcopy':
		return copy.deepcopy(g)
	if how == 'twice':
		return g.copy().copy()
	if how == 'pickle of a copy':
		return pickle.loads(pickle.dumps(g.copy()))
	return pickle.loads(pickle.dumps(g, protocol=int(how[-1])))


class C10(Prop):
	id = 'C10'
	clauses = ('faithful', 'original-kept', 'belongs', 'disjoint', 'independent', 'same-operations', 'same-picture', 'content', 'structure', 'in-place', 'deep')
	rule = (
		'a case is a graph with settings (schemes, converters, global styles), attributes, override tables and edits, rendered before or not, copied in one of eight ways; the copy is '
		'compared with the original, then both run an edit program one after the other while the other one is watched; non-trivial: at least one node'
	)
	assumptions = ('values and converters can be pickled and copied',)
	quick = 900
	thorough = 25000
	shrink_keys = ('ops', 'before', 'edges', 'nodes')

	def generate(self, rng, index, tier):
		t = gen.topology(rng, **gen.sizes(rng, 7, 12, big=0.03), hostile=rng.choice([0, 0, 0.4, 'family+int']))
		weights = dict(add=12, conn=18, rmnode=4, rmany=5, readd=3, set=8, setedge=6, render=0, Node=2, move=1)
		node = {repr(n): attributes(rng, p=0.5) for n in t['nodes']}
		edge = {str(i): attributes(rng, True, p=0.5) for i in range(len(t['edges']))}
		names = t['nodes'] + ['extra']
		return dict(
			kind=t['kind'], nodes=t['nodes'], edges=t['edges'], node=node, edge=edge, settings=observe.settings(rng),
			before=program(rng, rng.choice([0, 0, 5, 12]), names, weights, p=0.4), how=rng.choice(HOWS), render=rng.random() < 0.5,
			ops=program(rng, rng.choice([3, 6, 12]), names, weights, p=0.4), again=rng.randrange(10**6) if rng.random() < 0.5 else None, first=rng.choice(['original', 'copy']), mutate=rng.random() < 0.5,
			set_background=rng.random() < 0.3,
			overrides=[gen.override_tables(rng, t), rng.random() < 0.5 and gen.override_tables(rng, t)] if rng.random() < 0.3 else None
		)

	def execute(self, case, mon):
		settings = observe.make_settings(case['settings'])
		a = Driver(mon, settings=settings)
		a.overwrite = bool(settings.get('style_overwrite_allowed'))
		for n in case['nodes']:
			a.op_add(n, case['node'].get(repr(n)))
		for i, (s, e, id) in enumerate(case['edges']):
			if s in a.m.nodes and e in a.m.nodes:
				a.op_conn(s, e, id, case['edge'].get(str(i)), how=i)
		for op in case['before']:
			a.run(op)
		if case.get('overrides'):
			mon.call('append', a.g.append, make_overrides(case['overrides'][0], a.m))
		if case['render']:
			a.op_render()
			self.adopt_items(a)   # global styles also change explicit ones
		before = observe.snapshot(a.g)
		g, _ = mon.call(case['how'], duplicate, a.g, case['how'])
		mon.check('faithful', type(g) is type(a.g) and g is not a.g, f'the copy is a {type(g)}')
		self.same(mon, 'original-kept', before, observe.snapshot(a.g), 'the original before and after it was copied')
		self.same(mon, 'faithful', before, observe.snapshot(g), 'the original and its copy')
		observe.belongs(g, mon, 'belongs')
		observe.belongs(a.g, mon, 'belongs')
		self.disjoint(mon, a.g, g)

		b = Driver(mon, graph=g)
		b.overwrite = a.overwrite
		b.m = a.m.copy()
		b.ever = set(a.ever)
		b.adopt(g)
		compare_structure(b)
		compare_content(b)
		a.removed.clear()
		a.removed_items.clear()
		a.stale.clear()
		a.dead_edges.clear()
		first, second = (a, b) if case['first'] == 'original' else (b, a)
		watched = observe.snapshot(second.g)
		outcomes = self.edit(first, case, mon)
		self.same(mon, 'independent', watched, observe.snapshot(second.g), f'{case["first"]} was edited, the other one')
		watched = observe.snapshot(first.g)
		mon.equal('same-operations', self.edit(second, case, mon), outcomes, 'outcomes of the same program on the copy')
		self.same(mon, 'independent', watched, observe.snapshot(first.g), 'the one that was not edited')
		self.same(mon, 'same-operations', observe.snapshot(a.g), observe.snapshot(b.g), 'the original and its copy after the same program')
		for d in (a, b):
			compare_structure(d)
			compare_content(d)
		if case.get('overrides') and case['overrides'][1]:
			# overrides that only another copy gets
			third, _ = mon.call(case['how'], duplicate, a.g, case['how'])
			mon.call('append', third.append, make_overrides(case['overrides'][1], a.m))
			mon.call('render', third.render)
		if case.get('again') is not None:
			# content that changed since the last copy is in the next one
			self.touch(a.g, case['again'])
			self.same(mon, 'faithful', observe.snapshot(a.g), observe.snapshot(mon.call(case['how'], duplicate, a.g, case['how'])[0]), 'the changed original and a later copy')
			self.touch(b.g, case['again'])
			self.same(mon, 'same-operations', observe.snapshot(a.g), observe.snapshot(b.g), 'the original and its copy after the same changes')
		x, _ = mon.call('render', a.g.render, clause='same-picture')
		watched = observe.snapshot(a.g)
		y, _ = mon.call('render', b.g.render, clause='same-picture')
		mon.equal('same-picture', y.source, x.source, 'drawings of the original and its copy')
		self.same(mon, 'independent', watched, observe.snapshot(a.g), 'the original while the copy was drawn')
		mon.state((a.m.shape(), case['how'], case['render']))

	def touch(self, g, seed):
		"""changes that leave names, numbers and most attributes as they are"""
		rng = random.Random(seed)
		for x in g.nodes + list(g.edges_dict.values()):
			what = rng.choice(['value', 'label', 'parameter', 'frozen', None])
			if what == 'value' and not x.is_frozen:
				x.value = rng.choice([1, 'w', 2.5])
			elif what == 'label':
				x.label = rng.choice(['x', 'y', str(x.label)[::-1]])
			elif what == 'parameter':
				x['p'] = rng.randrange(100)
			elif what == 'frozen':
				(x.unfreeze if x.is_frozen else x.freeze)()

	def same(self, mon, clause, x, y, what):
		mon.check(clause, x == y, lambda: f'{what} differ in {observe.difference(x, y)}')

	def disjoint(self, mon, x, y):
		mine = {id(n) for n in x.nodes} | {id(e) for e in x.edges}
		other = {id(n) for n in y.nodes} | {id(e) for e in y.edges}
		mon.check('disjoint', not mine & other, 'nodes or edges are shared')
		mon.check('disjoint', not any(n in x for n in y.nodes) and not any(n in y for n in x.nodes), 'a graph contains nodes of the other one')
		mon.check('disjoint', x.nodes_dict is not y.nodes_dict, 'the dictionary of nodes is shared')
		mine = {id(i.style) for i in x.nodes + x.edges if i.style is not None}
		other = {id(i.style) for i in y.nodes + y.edges if i.style is not None}
		mon.check('disjoint', not mine & other, 'style objects are shared')

	def edit(self, d, case, mon):
		outcomes = []
		for op in case['ops']:
			outcomes.append(d.run(op))
		if case['mutate']:
			# changes in place of what the graph holds
			for item in list(d.g.nodes) + list(d.g.edges):
				if isinstance(item.value, list):
					item.value.append('added')
				elif isinstance(item.value, dict):
					item.value['added'] = 1
				if item.style is not None:
					item.style.colour = 'navy'
			self.adopt_items(d)
			mon.check('in-place', True)
		if case['set_background']:
			d.g.background_colour = 'gold'
		return outcomes

	def adopt_items(self, d):
		for name, x in d.m.nodes.items():
			self.adopt_item(d.objects[name], x)
		for key, x in d.m.edges.items():
			self.adopt_item(d.edge_objects[key], x)

	def adopt_item(self, obj, x):
		from ..driver import as_printed, printed
		x.value = copy.deepcopy(obj.value)
		if x.style is not None:
			x.style = as_printed(obj)

	def extra(self, report, tier, seed):
		mon = Mon()
		g = env.Graph()
		size = 300
		for i in range(size):
			g.add_node(str(i))
			if i:
				g.connect(str(i - 1), str(i))
		for how in ('copy', 'pickle4'):
			h, _ = mon.call(how, duplicate, g, how, clause='deep')
			mon.equal('deep', h.get_graphviz_str(), g.get_graphviz_str(), 'copy of a long chain')
		report['clauses'].update(mon.clauses)

	def fingerprint(self, case, mon):
		return super().fingerprint(case, mon) if case['nodes'] else None


PROP = C10()
