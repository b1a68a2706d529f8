from ..core import Prop
from .. import gen, observe
from ..driver import Driver, attributes, compare_structure, compare_content, program

DIRECTIONS = ('to', 'from', 'to_and_from', None)


class C12(Prop):
	id = 'C12'
	clauses = ('structure', 'content', 'kept', 'unchanged', 'new-graph', 'belongs', 'independent')
	rule = (
		'a case is a graph (cycles, styles, rendered or not, edited or not) with several requests: node selections by name and by node, four directions (one is the '
		'default), include and exclude; each result is compared with the induced part of the model; non-trivial: at least one edge'
	)
	assumptions = ('values can be copied',)
	quick = 1500
	thorough = 40000
	shrink_keys = ('requests', 'ops', 'edges', 'nodes')

	def generate(self, rng, index, tier):
		big = rng.random() < 0.04
		t = gen.topology(rng, max_nodes=24 if big else 8, max_edges=40 if big else 14, hostile=rng.choice([0, 0, 0.4, 'family+int']))
		p = rng.choice([0, 0.4])
		requests = []
		for _ in range(rng.randint(2, 5)):
			names = [rng.choice(t['nodes']) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))] if t['nodes'] else []
			requests.append([names, rng.choice(DIRECTIONS), rng.choice(['include', 'include', 'exclude', None]), rng.randrange(8)])
		return dict(
			kind=t['kind'], nodes=t['nodes'], edges=t['edges'], node={repr(n): attributes(rng, p=p) for n in t['nodes']},
			edge={str(i): attributes(rng, True, p=p) for i in range(len(t['edges']))},
			settings=observe.settings(rng, p=0.15, global_styles=False), render=rng.random() < 0.4, requests=requests,
			ops=program(rng, rng.choice([0, 0, 6]), t['nodes'] + ['extra'], dict(bad=0, set=4, setedge=3), p=0.3)
		)

	def execute(self, case, mon):
		settings = observe.make_settings(case['settings'])
		d = Driver(mon, settings=settings)
		d.overwrite = bool(settings.get('style_overwrite_allowed'))
		for n in case['nodes']:
			d.op_add(n, case['node'].get(repr(n)))
		for i, (s, e, id) in enumerate(case['edges']):
			if s in d.m.nodes and e in d.m.nodes:
				d.op_conn(s, e, id, case['edge'].get(str(i)), how=i)
		for op in case['ops']:
			d.run(op)
		if case['render']:
			d.op_render()
		for request in case['requests']:
			self.request(d, request, mon)
		compare_structure(d, 'unchanged')
		compare_content(d, 'unchanged')
		mon.state((d.m.shape(), case['requests']))

	def request(self, d, request, mon):
		names, direction, filter_type, how = request
		names = [n for n in names if n in d.m.nodes]
		arguments = [d.objects[n] if how >> (i % 3) & 1 else n for i, n in enumerate(names)]
		kw = {}
		if direction is not None:
			kw['direction'] = direction
		if filter_type is not None:
			kw['filter_type'] = filter_type
		before = observe.snapshot(d.g)
		if arguments or how & 3:
			kw['nodes'] = arguments or (None if how & 3 == 1 else arguments)
		g, _ = mon.call('filter', d.g.filter, clause='kept', **kw)
		mon.check('new-graph', g is not d.g, 'the filtered graph is the graph itself')
		chosen = set(names)
		for n in names:
			if direction != 'from':
				chosen |= set(d.m.distances(n, forward=False))
			if direction != 'to':
				chosen |= set(d.m.distances(n, forward=True))
		kept = [n for n in d.m.nodes if (n in chosen) == (filter_type != 'exclude')]
		mon.equal('kept', [n.name for n in g.nodes], kept, f'nodes kept by {request}')
		r = Driver(mon, graph=g)
		r.overwrite = d.overwrite
		r.m = d.m.induced(set(kept))
		r.ever = set(d.m.nodes)
		mon.equal('kept', {e.id for e in g.edges}, set(r.m.edges), f'edges kept by {request}')
		r.adopt(g)
		compare_structure(r)
		compare_content(r)
		observe.belongs(g, mon, 'belongs')
		after = observe.snapshot(d.g)
		mon.check('unchanged', before == after, lambda: f'the graph changed by being filtered: {observe.difference(before, after)}')
		# the result can be edited without any effect on the graph, and the other way around
		if kept and how & 1:
			g.connect(kept[0], kept[-1], id='later')
			g.remove_node(kept[-1])
			g.add_node('later', value=[1])
			mon.call('render', g.render, clause='independent')
			after = observe.snapshot(d.g)
			mon.check('independent', before == after, lambda: f'the graph changed by edits of the result: {observe.difference(before, after)}')
		else:
			mon.check('independent', True)

	def fingerprint(self, case, mon):
		return super().fingerprint(case, mon) if case['edges'] else None


PROP = C12()
