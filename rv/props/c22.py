import copy

from ..core import Prop, Mon
from .. import gen, observe
from ..driver import ANY, Driver, attributes, compare_content, compare_structure, make_style, as_printed, printed, program, strict_value
from ..env import Graph


def some(rng, edge=False):
	return {k: v for k, v in attributes(rng, edge, p=0.4).items() if k in ('label', 'value', 'style')}


class Offers:
	def __init__(self, representation):
		self.representation = representation

	def __graph__(self):
		return self.representation


class Guarded(Driver):
	"""adds appending to the edits, and counts what was attempted on protected items"""

	def op_append(self, node_entries, edge_entries, form):
		"""appends a representation in which some entries meet frozen values and set styles"""
		mon, m, g = self.mon, self.m, self.g
		nodes, edges, rejected = {}, {}, False
		for name, a in node_entries:
			nodes[name] = a
		for s, e, id, a in edge_entries:
			if (s in m.nodes or s in nodes) and (e in m.nodes or e in nodes):
				edges[(s, e, id)] = a
		for name, a in nodes.items():
			if name in m.nodes:
				rejected = rejected or self._update_rejected(m.nodes[name], a)
		for key, a in edges.items():
			if key in m.edges:
				rejected = rejected or self._update_rejected(m.edges[key], a)
		if form == 'graph':
			other = Graph()
			for s, e, _ in edges:
				for name in (s, e):
					nodes.setdefault(name, {})
			for name, a in nodes.items():
				other.add_node(name, **self._given(a))
			for (s, e, id), a in edges.items():
				other.connect(s, e, id=id, **self._given(a, True))
			argument = other
			# a graph lists its edges by start
			edges = {key: edges[key] for n in nodes for key in edges if key[0] == n}
		else:
			representation = dict(
				nodes={n: self._given(a) for n, a in nodes.items()},
				edges=[(s, e, dict(id=id, **self._given(a, True))) for (s, e, id), a in edges.items()]
			)
			argument = representation if form == 'dict' else Offers(representation) if form == 'object' else [representation]
		before = {n: (x.frozen, strict_value(self.objects[n].value), x.style is not None, self.objects[n].style) for n, x in m.nodes.items()}
		edges_before = {k: (x.frozen, strict_value(self.edge_objects[k].value), x.style is not None, self.edge_objects[k].style) for k, x in m.edges.items()}
		mon.call('append', g.append, argument, raises=ANY if rejected else None, clause='protected' if rejected else 'accepts')
		if rejected:
			# how much of the rest was taken over is not specified: what is protected has to be as it was
			for what, objects, old in (('node', self.objects, before), ('edge', self.edge_objects, edges_before)):
				for key, (frozen, value, styled, style) in old.items():
					if frozen:
						mon.equal('frozen-kept', strict_value(objects[key].value), value, f'value of frozen {what} {key!r} after a rejected representation')
					if styled and not self.overwrite:
						mon.check('style-kept', objects[key].style is style, lambda: f'the style of {what} {key!r} was replaced by a rejected representation')
			self.take_over(list(edges))
			return 'rejected'
		for name, a in nodes.items():
			if name in m.nodes:
				self._update(m.nodes[name], a)
			else:
				m.add_node(name, **self._item_kwargs(a))
				self._new_node(name, g.get_node(name))
		for key, a in edges.items():
			if key in m.edges:
				self._update(m.edges[key], a)
			else:
				m.connect(*key, **self._item_kwargs(a))
				self.edge_objects[key] = g.edges_dict[key]
		return 'appended'

	def _given(self, a, edge=False):
		return {k: make_style(v, edge) if k == 'style' else copy.deepcopy(v) for k, v in a.items() if k in ('label', 'value', 'style')}

	def take_over(self, order):
		"""adopts the observed content; order: keys of edges in the order in which they were connected"""
		m, g = self.m, self.g
		for node in g.nodes:
			if node.name not in m.nodes:
				m.add_node(node.name)
				self._new_node(node.name, node)
			self.adopt_item(node, m.nodes[node.name])
		edges = {edge.id: edge for edge in g.edges}
		for edge in [edges[key] for key in order if key in edges] + list(edges.values()):
			if edge.id not in m.edges:
				m.connect(*edge.id)
				self.edge_objects[edge.id] = edge
			self.adopt_item(edge, m.edges[edge.id])

	def adopt_item(self, obj, x):
		x.value = copy.deepcopy(obj.value)
		x.style = as_printed(obj)
		# the label of a node shows its name when there is none, which the model does as well
		x.label = obj.label

	def op_filter(self, names, direction):
		"""continues on a filtered graph that keeps everything"""
		g, _ = self.mon.call('filter', self.g.filter, [], filter_type='exclude', direction=direction)
		self.adopt(g)
		return 'filtered'


def alike(value):
	"""equal to it, but something else"""
	if isinstance(value, (bool, int, float)):
		return next(t for t in (int(value), float(value), bool(value)) if t != value or type(t) is not type(value))
	return type('Text', (str,), {})(value) if isinstance(value, str) else value


class C22(Prop):
	id = 'C22'
	clauses = ('protected', 'frozen-kept', 'style-kept', 'content', 'accepts', 'replaced', 'unfrozen', 'structure', 'after-copy', 'after-readd')
	rule = (
		'a case is an edit program dominated by freezing, unfreezing and attempts to change values and styles (assignment, adding again, connecting again, appended '
		'dictionaries, lists, graphs and objects, before and after copies, pickles, renders and filters) with style overwriting allowed or not; every value, style and flag '
		'is compared with the model after every call; non-trivial: at least one attempt met a protection'
	)
	assumptions = ('values are changed through the graph, not in place by the caller',)
	quick = 5000
	thorough = 150000

	def generate(self, rng, index, tier):
		names = gen.name_pool(rng, rng.randint(1, 4), hostile=rng.choice([0, 0, 0.5, 'family+int']))
		weights = dict(add=22, conn=26, bad=0, Node=1, Edge=1, rmnode=2, rmedge=1, rmany=1, rmedges=1, readd=4, move=1, addnode=2, set=34, setedge=30, copy=4, render=1)
		ops = program(rng, rng.choice([6, 15, 30]), names, weights, p=rng.choice([0.4, 0.7]))
		for op in ops:
			if op[0] in ('set', 'setedge') and rng.random() < 0.5:
				op[2], op[3] = rng.choice([('freeze', None), ('freeze', None), ('unfreeze', None), ('value', gen.value(rng))])
		for _ in range(rng.choice([0, 1, 3, 5])):
			nodes = [[n, some(rng)] for n in names + ['extra'] if rng.random() < 0.5]
			edges = [[rng.choice(names), rng.choice(names), rng.choice(gen.IDS), some(rng, True)] for _ in range(rng.randint(0, 3))]
			ops.insert(rng.randint(0, len(ops)), ['append', nodes, edges, rng.choice(['dict', 'list', 'graph', 'object'])])
		if rng.random() < 0.2:
			ops.insert(rng.randint(0, len(ops)), ['filter', [], rng.choice(['to', 'from', 'to_and_from'])])
		return dict(ops=ops, overwrite=rng.random() < 0.4)

	def execute(self, case, mon):
		d = Guarded(mon, overwrite=case['overwrite'])
		copied = readded = False
		for op in case['ops']:
			frozen = {n for n, x in d.m.nodes.items() if x.frozen} | {k for k, x in d.m.edges.items() if x.frozen}
			styled = {n: d.objects[n].style for n, x in d.m.nodes.items() if x.style is not None}
			outcome = d.run(op)
			mon.event(f'{op[0]}:{outcome}')
			if outcome == 'skip':
				continue
			for n in frozen:
				if n in d.m.nodes and d.m.nodes[n].frozen:
					mon.equal('frozen-kept', strict_value(d.objects[n].value), strict_value(d.m.nodes[n].value), f'value of frozen node {n!r} after {op[0]}')
				elif n in d.m.edges and d.m.edges[n].frozen:
					mon.equal('frozen-kept', strict_value(d.edge_objects[n].value), strict_value(d.m.edges[n].value), f'value of frozen edge {n!r} after {op[0]}')
			if not d.overwrite and op[0] in ('add', 'conn', 'set', 'setedge'):
				for n, style in styled.items():
					if n in d.m.nodes:
						mon.check('style-kept', d.objects[n].style is style, lambda: f'the style of node {n!r} was replaced')
			if op[0] in ('set', 'setedge') and op[2] == 'unfreeze':
				mon.clauses['unfrozen'] += 1
			if d.overwrite and outcome != 'rejected' and (op[0] in ('set', 'setedge') and op[2] == 'style' or op[0] == 'add' and (op[2] or {}).get('style') is not None):
				mon.clauses['replaced'] += 1
			copied = copied or op[0] in ('copy', 'filter')
			readded = readded or op[0] == 'readd'
			compare_content(d)
			if copied:
				mon.clauses['after-copy'] += 1
			if readded:
				mon.clauses['after-readd'] += 1
		compare_structure(d)
		self.last_attempts(d, mon)
		mon.state((d.m.shape(), case['overwrite'], len(mon.trace)))

	def last_attempts(self, d, mon):
		"""one more attempt of every kind on everything that is protected at the end, then everything is unfrozen"""
		for items, objects, edge in ((d.m.nodes, d.objects, False), (d.m.edges, d.edge_objects, True)):
			for key, x in list(items.items()):
				obj = objects[key]
				again = (lambda **kw: d.g.connect(key[0], key[1], id=key[2], if_edge_exists='ignore', **kw)) if edge else (lambda **kw: d.g.add_node(key, if_node_exists='ignore', **kw))
				appended = (lambda **kw: d.g.append(dict(nodes=[], edges=[(key[0], key[1], dict(id=key[2], **kw))]))) if edge else (lambda **kw: d.g.append(dict(nodes={key: kw}, edges=[])))
				style = dict(colour='gold', font='protected?')
				if x.frozen:
					for v in (0, 'other', None, copy.copy(x.value), alike(x.value)):
						mon.call('value=', setattr, obj, 'value', v, raises=ANY, clause='protected')
					mon.call('again', again, value=0, raises=ANY, clause='protected')
					mon.call('append', appended, value='other', raises=ANY, clause='protected')
					mon.equal('frozen-kept', strict_value(obj.value), strict_value(x.value), f'value of frozen {key!r}')
				if x.style is not None and not d.overwrite:
					old, text = obj.style, printed(obj.style)
					same = old.copy()
					for attempt in (lambda: setattr(obj, 'style', dict(style)), lambda: setattr(obj, 'style', same), lambda: again(style=same), lambda: again(style=make_style(dict(form='object', args=style), edge)), lambda: appended(style=dict(style))):
						mon.call('style', attempt, raises=ANY, clause='protected')
						mon.check('style-kept', obj.style is old and printed(obj.style) == text, lambda: f'the style of {key!r} was replaced')
				if x.frozen:
					obj.unfreeze()
					mon.call('value=', setattr, obj, 'value', 'unfrozen', clause='accepts')
					mon.equal('unfrozen', (obj.value, obj.is_frozen), ('unfrozen', False), f'value of {key!r} after it was unfrozen')
				if d.overwrite:
					mon.call('style=', setattr, obj, 'style', dict(style), clause='accepts')
					mon.check('replaced', 'protected?' in obj.style.get_graphviz_str(), lambda: f'the style of {key!r} was not replaced')

	def fingerprint(self, case, mon):
		if not any('raise:' in t for t in mon.trace):
			return None
		return super().fingerprint(case, mon)


PROP = C22()
