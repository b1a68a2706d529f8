"""
Runs edit programs against the real graph and the reference model side by side.

The history is recorded at the client's boundary (core.Mon.call). Expectations about a call's outcome come from the
model only. Operations are JSON lists; an operation that cannot apply is either skipped or expected to be rejected.
"""
import copy
import pickle

from .env import Graph, Node, Edge, NodeStyle, EdgeStyle
from .model import Model, MItem
from . import gen

ANY = (Exception,)


def make_style(spec, edge=False):
	"""spec: None or dict(form='dict'|'object', args={...})"""
	if spec is None:
		return None
	if spec['form'] == 'dict':
		return dict(spec['args'])
	return (EdgeStyle if edge else NodeStyle)(**spec['args'])


def printed(style):
	"""observable content of a style"""
	return None if style is None else (type(style).__name__, style.get_graphviz_str())


def as_printed(obj):
	"""the specification of the style that a node or edge has now, if it has one"""
	return dict(observed=printed(obj.style)) if obj.has_style() else None


def expected_style(spec, edge=False):
	if spec is None:
		return None
	if 'observed' in spec:
		return spec['observed']
	return printed((EdgeStyle if edge else NodeStyle)(**spec['args']))


def strict_value(v):
	"""distinguishes 0, False, 0.0, ..."""
	if isinstance(v, (list, tuple)):
		return type(v).__name__, [strict_value(x) for x in v]
	if isinstance(v, dict):
		return 'dict', [(k, strict_value(x)) for k, x in v.items()]
	return type(v).__name__, v if isinstance(v, (int, float, str, bool, type(None))) else repr(v)


ATTRIBUTES = ('label', 'value', 'style', 'tooltip')


class Driver:
	constructors = 0   # every how manieth node is made by the constructor

	def __init__(self, mon, graph=None, settings=None, overwrite=False):
		self.mon = mon
		settings = dict(settings or {})
		self.overwrite = overwrite or settings.get('style_overwrite_allowed', False)
		if overwrite:
			settings['style_overwrite_allowed'] = True
		self.g = graph if graph is not None else Graph(**settings)
		self.m = Model()
		self.objects = {}        # name -> Node object the caller was given
		self.edge_objects = {}   # key -> Edge object the caller was given
		self.removed = {}        # name -> removed Node object
		self.removed_items = {}
		self.stale = []          # removed Node objects whose names were given to others
		self.dead_edges = []
		self.ever = set()

	# arguments
	def _kwargs(self, attributes, edge=False):
		kw = {}
		for key in ATTRIBUTES:
			if key in attributes:
				kw[key] = make_style(attributes[key], edge) if key == 'style' else copy.deepcopy(attributes[key])
		for key, v in attributes.get('parameters', {}).items():
			kw[key] = copy.deepcopy(v)
		return kw

	def _item_kwargs(self, attributes):
		return copy.deepcopy({k: v for k, v in attributes.items() if k in ATTRIBUTES or k == 'parameters'})

	def _update(self, item, attributes):
		for key in ('label', 'value', 'style'):
			if attributes.get(key) is not None:
				setattr(item, key, copy.deepcopy(attributes[key]))

	def _update_rejected(self, item, attributes):
		if attributes.get('style') is not None and item.style is not None and not self.overwrite:
			return True
		if attributes.get('value') is not None and item.frozen:
			return True
		return False

	# operations
	def run(self, op):
		handler = getattr(self, 'op_' + op[0])
		return handler(*op[1:])

	def op_add(self, name, attributes=None, policy=None):
		mon, attributes = self.mon, attributes or {}
		kw = self._kwargs(attributes)
		if policy is not None:
			kw['if_node_exists'] = policy
		if name not in self.m.nodes:
			if self.constructors and len(self.ever) % self.constructors == 0:
				return self.op_Node(name, attributes)
			node, warned = mon.call('add_node', self.g.add_node, name, **kw)
			mon.check('new-object', isinstance(node, Node) and node.name == name, lambda: f'add_node({name!r}) returned {node!r}')
			mon.equal('warnings', len(warned), 0, f'warnings for new node {name!r}')
			self.m.add_node(name, **self._item_kwargs(attributes))
			self._new_node(name, node)
			return 'new'
		item = self.m.nodes[name]
		kw = {k: v for k, v in kw.items() if k in ('label', 'value', 'style', 'if_node_exists')}
		if policy == 'error':
			mon.call('add_node', self.g.add_node, name, raises=ANY, **kw)
			return 'rejected'
		if self._update_rejected(item, attributes):
			mon.call('add_node', self.g.add_node, name, raises=ANY, clause='protected', **kw)
			return 'rejected'
		node, warned = mon.call('add_node', self.g.add_node, name, **kw)
		mon.check('same-object', node is self.objects[name], lambda: f'add_node({name!r}) of an existing node returned {node!r}, not the existing object')
		mon.equal('warnings', len(warned), 0 if policy == 'ignore' else 1, f'warnings for duplicate node {name!r} under {policy}')
		self._update(item, attributes)
		return 'duplicate'

	def _new_node(self, name, node):
		self.objects[name] = node
		self.ever.add(name)
		if name in self.removed:
			# the removed object can no longer come back under this name
			self.stale.append((name, self.removed.pop(name)))

	def op_Node(self, name, attributes=None):
		attributes = attributes or {}
		if name in self.m.nodes:
			return 'skip'
		node, _ = self.mon.call('Node', Node, graph=self.g, name=name, **self._kwargs(attributes))
		self.m.add_node(name, **self._item_kwargs(attributes))
		self._new_node(name, node)
		return 'new'

	def op_conn(self, s, e, id=None, attributes=None, policy=None, how=0):
		mon, attributes = self.mon, attributes or {}
		kw = self._kwargs(attributes, edge=True)
		if policy is not None:
			kw['if_edge_exists'] = policy
		if id is not None or how % 2:
			kw['id'] = id
		key = (s, e, id)
		if s not in self.m.nodes or e not in self.m.nodes:
			mon.call('connect', self.g.connect, s, e, raises=ANY, **kw)
			return 'rejected'

		def call(raises=None, clause=None):
			so, eo = self.objects[s], self.objects[e]
			if how % 5 == 0:
				return mon.call('connect', self.g.connect, s, e, raises=raises, clause=clause, **kw)
			if how % 5 == 1:
				return mon.call('connect', self.g.connect, start=so, end=eo, raises=raises, clause=clause, **kw)
			if how % 5 == 2:
				return mon.call('connect_to', so.connect_to, eo, raises=raises, clause=clause, **kw)
			if how % 5 == 3:
				return mon.call('connect_from', eo.connect_from, so, raises=raises, clause=clause, **kw)
			return mon.call('connect', self.g.connect, so, e, raises=raises, clause=clause, **kw)

		if key not in self.m.edges:
			edge, warned = call()
			mon.check('new-object', isinstance(edge, Edge) and edge.id == key, lambda: f'connect{key!r} returned {edge!r}')
			mon.equal('warnings', len(warned), 0, f'warnings for new edge {key!r}')
			self.m.connect(s, e, id, **self._item_kwargs(attributes))
			self.edge_objects[key] = edge
			return 'new'
		for k in list(kw):
			if k not in ('label', 'value', 'style', 'if_edge_exists', 'id'):
				del kw[k]
		item = self.m.edges[key]
		if policy == 'error':
			call(raises=ANY)
			return 'rejected'
		if self._update_rejected(item, attributes):
			call(raises=ANY, clause='protected')
			return 'rejected'
		edge, warned = call()
		mon.check('same-object', edge is self.edge_objects[key], lambda: f'connect{key!r} of an existing edge returned another object')
		mon.equal('warnings', len(warned), 0 if policy == 'ignore' else 1, f'warnings for duplicate edge {key!r} under {policy}')
		self._update(item, attributes)
		return 'duplicate'

	def op_Edge(self, s, e, id=None, attributes=None):
		attributes = attributes or {}
		if s not in self.m.nodes or e not in self.m.nodes or (s, e, id) in self.m.edges:
			return 'skip'
		edge, _ = self.mon.call('Edge', Edge, graph=self.g, start=self.objects[s], end=self.objects[e], id=id, **self._kwargs(attributes, edge=True))
		self.m.connect(s, e, id, **self._item_kwargs(attributes))
		self.edge_objects[(s, e, id)] = edge
		return 'new'

	def _forget_edge(self, key):
		self.dead_edges.append(self.edge_objects.pop(key))

	def op_rmnode(self, name, how=0):
		if name not in self.m.nodes:
			self.mon.call('remove_node', self.g.remove_node, name, raises=ANY)
			return 'rejected'
		node = self.objects[name]
		self.mon.call('remove_node', self.g.remove_node, node if how % 2 else name)
		for key in self.m.edges_of(name):
			self._forget_edge(key)
		self.removed[name] = self.objects.pop(name)
		self.removed_items[name] = self.m.nodes[name]
		self.m.remove_node(name)
		return 'removed'

	def op_rmedge(self, s, e, id=None, how=0):
		key = (s, e, id)
		if key not in self.m.edges:
			return 'skip'
		edge = self.edge_objects[key]
		if how % 2 == 0:
			self.mon.call('remove_self', edge.remove_self)
		else:
			self.mon.call('disconnect', self.g.disconnect, edge)
		self._forget_edge(key)
		self.m.remove_edge(key)
		return 'removed'

	def op_rmany(self, position, how=0):
		"""removes the edge at a position of the model's edge list"""
		if not self.m.edges:
			return 'skip'
		keys = list(self.m.edges)
		return self.op_rmedge(*keys[position % len(keys)], how=how)

	def op_rmedges(self, name):
		if name not in self.m.nodes:
			return 'skip'
		self.mon.call('remove_edges', self.objects[name].remove_edges)
		for key in self.m.edges_of(name):
			self._forget_edge(key)
			self.m.remove_edge(key)
		return 'removed'

	def op_readd(self, name):
		"""adds a removed node object again"""
		stale = [node for n, node in self.stale if n == name]
		if name in self.m.nodes and stale:
			# another node has its name now
			self.mon.call('add_node(stale)', self.g.add_node, stale[-1], raises=ANY)
			return 'rejected'
		if name in self.m.nodes or name not in self.removed:
			return 'skip'
		node = self.removed.pop(name)
		result, warned = self.mon.call('add_node(removed)', self.g.add_node, node)
		self.mon.check('same-object', result is node, lambda: f'adding the removed node {name!r} again returned {result!r}')
		self.m.nodes[name] = self.removed_items.pop(name)
		self.objects[name] = node
		return 'new'

	def op_addnode(self, name):
		"""adds a node object that is in the graph already"""
		if name not in self.m.nodes:
			return 'skip'
		node = self.objects[name]
		result, warned = self.mon.call('add_node(present)', self.g.add_node, node)
		self.mon.check('same-object', result is node, lambda: f'adding the present node {name!r} again returned {result!r}')
		return 'duplicate'

	def op_move(self, name):
		"""a node of another graph is removed there and added here"""
		if name in self.m.nodes:
			return 'skip'
		other = Graph()
		node = other.add_node(name)
		self.mon.call('add_node(foreign)', self.g.add_node, node, raises=ANY)
		self.mon.check('foreign', node.graph is other and other.get_node(name) is node, f'a rejected foreign node {name!r} no longer belongs to its graph')
		other.remove_node(node)
		result, _ = self.mon.call('add_node(moved)', self.g.add_node, node)
		self.mon.check('same-object', result is node, lambda: f'adding the moved node {name!r} returned {result!r}')
		self.m.add_node(name)
		self._new_node(name, node)
		return 'new'

	def op_bad(self, kind, name=None, other=None):
		"""calls that must be rejected without any effect"""
		mon, g = self.mon, self.g
		present = list(self.m.nodes)
		if kind == 'get':
			if name in self.m.nodes:
				return 'skip'
			mon.call('get_node', g.get_node, name, raises=ANY)
		elif kind == 'get-type':
			mon.call('get_node', g.get_node, 1.5, raises=ANY)
			mon.call('get_node_name', g.get_node_name, [], raises=ANY)
		elif kind == 'add-type':
			mon.call('add_node', g.add_node, 3.5, raises=ANY)
			mon.call('add_node', g.add_node, None, raises=ANY)
		elif kind == 'conn-type':
			if not present:
				return 'skip'
			mon.call('connect', g.connect, present[0], 2.5, raises=ANY)
			mon.call('connect', g.connect, None, present[-1], raises=ANY)
		elif kind == 'style-type':
			if name in self.m.nodes:
				if self.m.nodes[name].style is not None and not self.overwrite:
					return 'skip'
				mon.call('add_node', g.add_node, name, style='red', label='changed', value='changed', if_node_exists='ignore', raises=ANY)
			else:
				mon.call('add_node', g.add_node, name, style='red', raises=ANY)
		elif kind == 'edge-style-type':
			if not present:
				return 'skip'
			s, e = present[0], present[-1]
			if (s, e, 'bad') in self.m.edges:
				return 'skip'
			mon.call('connect', g.connect, s, e, id='bad', style=7, raises=ANY)
		elif kind == 'style-args':
			if name in self.m.nodes:
				return 'skip'
			mon.call('add_node', g.add_node, name, style={'no_such_attribute': 1}, raises=ANY)
		elif kind == 'rm-unknown':
			if name in self.m.nodes:
				return 'skip'
			mon.call('remove_node', g.remove_node, name, raises=ANY)
		elif kind == 'rm-dead-edge':
			if not self.dead_edges:
				return 'skip'
			mon.call('remove_self', self.dead_edges[-1].remove_self, raises=ANY)
		elif kind == 'foreign':
			if name not in self.m.nodes:
				return 'skip'
			foreign = Graph()
			node = foreign.add_node(name)
			mon.call('add_node(foreign)', g.add_node, node, raises=ANY)
			mon.check('foreign', node.graph is foreign and foreign.get_node(name) is node, 'a rejected foreign node no longer belongs to its graph')
		return 'rejected'

	def op_set(self, name, what, v):
		"""assignment to an attribute of a node"""
		if name not in self.m.nodes:
			return 'skip'
		return self._set(self.objects[name], self.m.nodes[name], what, v, edge=False)

	def op_setedge(self, position, what, v):
		if not self.m.edges:
			return 'skip'
		keys = list(self.m.edges)
		key = keys[position % len(keys)]
		return self._set(self.edge_objects[key], self.m.edges[key], what, v, edge=True)

	def _set(self, obj, item, what, v, edge):
		mon = self.mon
		if what == 'freeze':
			mon.call('freeze', obj.freeze)
			item.frozen = True
		elif what == 'unfreeze':
			mon.call('unfreeze', obj.unfreeze)
			item.frozen = False
		elif what == 'parameter':
			mon.call('set', obj.__setitem__, 'p', copy.deepcopy(v))
			item.parameters['p'] = copy.deepcopy(v)
		elif what == 'style':
			rejected = item.style is not None and not self.overwrite
			mon.call('style=', setattr, obj, 'style', make_style(v, edge), raises=ANY if rejected else None, clause='protected' if rejected else None)
			if not rejected:
				item.style = copy.deepcopy(v)
		elif what == 'value':
			rejected = item.frozen
			mon.call('value=', setattr, obj, 'value', copy.deepcopy(v), raises=ANY if rejected else None, clause='protected' if rejected else None)
			if not rejected:
				item.value = copy.deepcopy(v)
		elif what == 'label':
			mon.call('label=', setattr, obj, 'label', v)
			item.label = v
		return 'set'

	def op_render(self):
		"""styles everything; the styles made automatically are taken over as observed"""
		self.mon.call('render', self.g.render)
		self.adopt_styles()
		return 'rendered'

	def adopt_styles(self):
		for name, item in self.m.nodes.items():
			if item.style is None:
				item.style = as_printed(self.objects[name])
		for key, item in self.m.edges.items():
			if item.style is None:
				item.style = as_printed(self.edge_objects[key])

	def op_copy(self, how=0):
		"""continues on a copy"""
		if how % 3 == 0:
			g, _ = self.mon.call('copy', self.g.copy)
		elif how % 3 == 1:
			g, _ = self.mon.call('deepcopy', copy.deepcopy, self.g)
		else:
			g, _ = self.mon.call('pickle', lambda: pickle.loads(pickle.dumps(self.g)))
		self.mon.check('new-object', g is not self.g, 'the copy is the original')
		self.adopt(g)
		return 'copied'

	def adopt(self, g):
		self.g = g
		self.objects = {n: g.nodes_dict[n] for n in self.m.nodes}
		edges = {e.id: e for e in g.edges}
		self.edge_objects = {k: edges[k] for k in self.m.edges}
		self.removed.clear()
		self.removed_items.clear()
		self.stale.clear()
		self.dead_edges.clear()


def compare_structure(d, clause='structure', light=False):
	"""walks every public view of the graph and compares it with the model (a quiescent-point monitor)"""
	mon, g, m = d.mon, d.g, d.m
	names = list(m.nodes)
	nodes = g.nodes
	mon.equal(clause, [n.name for n in nodes], names, 'names of graph.nodes')
	mon.check(clause, all(isinstance(n, Node) for n in nodes), 'graph.nodes contains something that is not a node')
	mon.equal(clause, list(g.nodes_dict), names, 'keys of nodes_dict')
	ids = [e.id for e in g.edges]
	mon.equal(clause, sorted(map(repr, ids)), sorted(map(repr, m.edges)), 'ids of graph.edges')
	mon.equal(clause, set(ids), set(m.edges), 'ids of graph.edges')
	ed = g.edges_dict
	mon.equal(clause, set(ed), set(m.edges), 'keys of edges_dict')
	mon.check(clause, all(ed[k].id == k for k in ed), 'edges_dict maps an id to another edge')
	for node in nodes:
		name = node.name
		mon.check(clause, node is d.objects[name], lambda: f'node {name!r} is not the object that was returned when it was added')
		mon.check(clause, node.graph is g, lambda: f'node {name!r} does not belong to the graph')
		out, into = m.outward(name), m.inward(name)
		mon.equal(clause, [e.id for e in node.outward_edges], out, f'outward edges of {name!r}')
		mon.equal(clause, [e.id for e in node.inward_edges], into, f'inward edges of {name!r}')
		mon.equal(clause, list(node.outward_edge_ids), out, f'outward edge ids of {name!r}')
		mon.equal(clause, list(node.inward_edge_ids), into, f'inward edge ids of {name!r}')
		mon.equal(clause, list(node.outward_edges_dict), out, f'outward edge dictionary of {name!r}')
		mon.equal(clause, list(node.inward_edges_dict), into, f'inward edge dictionary of {name!r}')
		both = [e.id for e in node.edges]
		mon.equal(clause, sorted(map(repr, both)), sorted(map(repr, m.edges_of(name))), f'edges of {name!r}')
		mon.equal(clause, node.num_outward_edges, len(out), f'num_outward_edges of {name!r}')
		for e in node.outward_edges:
			mon.check(clause, e is d.edge_objects[e.id], lambda: f'edge {e.id!r} is not the object that was returned when it was connected')
			mon.check(clause, e.graph is g, lambda: f'edge {e.id!r} does not belong to the graph')
			mon.check(clause, e.start is node, lambda: f'edge {e.id!r} is among the outward edges of {name!r}')
			mon.check(clause, e.end is d.objects[e.id[1]], lambda: f'the end of edge {e.id!r} is not a node of the graph')
			mon.check(clause, e.end.get_inward_edge(e.id) is e, lambda: f'edge {e.id!r} is not an inward edge of its end')
			mon.check(clause, node.get_outward_edge(e.id) is e, lambda: f'get_outward_edge({e.id!r})')
		for e in node.inward_edges:
			mon.check(clause, e is d.edge_objects[e.id] and e.end is node, lambda: f'edge {e.id!r} is among the inward edges of {name!r}')
		if not light:
			mon.equal(clause, [e.id for e in g.get_outward_edges(name)], out, f'get_outward_edges({name!r})')
			mon.equal(clause, [e.id for e in g.get_inward_edges(node)], into, f'get_inward_edges({name!r})')
			mon.equal(clause, sorted(map(repr, {e.id for e in g.get_edges(name)})), sorted(map(repr, set(m.edges_of(name)))), f'get_edges({name!r})')
			mon.check(clause, g.get_node(name) is node and g.get_node(node) is node, lambda: f'get_node({name!r})')
			mon.equal(clause, (g.get_node_name(name), g.get_node_name(node)), (name, name), f'get_node_name({name!r})')
	for name in sorted(d.ever, key=repr):
		mon.equal('membership', name in g, name in m.nodes, f'{name!r} in graph')
	for name, node in d.objects.items():
		mon.equal('membership', node in g, True, f'node object {name!r} in graph')
	for name, node in d.removed.items():
		mon.check('membership', node.graph is None, lambda: f'removed node {name!r} still belongs to a graph')
		mon.equal('membership', node in g, False, f'removed node object {name!r} in graph')
		mon.equal('membership', list(node.outward_edges_dict) + list(node.inward_edges_dict), [], f'edges of removed node {name!r}')
	for name, node in d.stale[-4:]:
		mon.check('membership', node.graph is None and node not in g, lambda: f'removed node object {name!r}, whose name was given to another node, is in the graph')
		mon.equal('membership', list(node.outward_edges_dict) + list(node.inward_edges_dict), [], f'edges of removed node {name!r}')
	for e in d.dead_edges[-6:]:
		mon.check('membership', e.graph is None, 'a removed edge still belongs to a graph')
	mon.state(m.shape())


def compare_content(d, clause='content'):
	mon, m = d.mon, d.m
	for name, item in m.nodes.items():
		node = d.objects[name]
		mon.equal(clause, node.label, str(item.label) if item.label else str(name), f'label of node {name!r}')
		mon.equal(clause, strict_value(node.value), strict_value(item.value), f'value of node {name!r}')
		mon.equal(clause, printed(node.style), expected_style(item.style), f'style of node {name!r}')
		mon.equal(clause, node.has_style(), item.style is not None, f'has_style of node {name!r}')
		mon.equal(clause, node.is_frozen, item.frozen, f'is_frozen of node {name!r}')
		for k, v in item.parameters.items():
			mon.equal(clause, strict_value(node[k]), strict_value(v), f'parameter {k} of node {name!r}')
	for key, item in m.edges.items():
		edge = d.edge_objects[key]
		mon.equal(clause, edge.label, item.label, f'label of edge {key!r}')
		mon.equal(clause, strict_value(edge.value), strict_value(item.value), f'value of edge {key!r}')
		mon.equal(clause, printed(edge.style), expected_style(item.style, True), f'style of edge {key!r}')
		mon.equal(clause, edge.is_frozen, item.frozen, f'is_frozen of edge {key!r}')
		for k, v in item.parameters.items():
			mon.equal(clause, strict_value(edge[k]), strict_value(v), f'parameter {k} of edge {key!r}')
	mon.equal(clause, {n for n, s in d.g.node_styles.items()}, {n for n, x in m.nodes.items() if x.style is not None}, 'node_styles')
	mon.equal(clause, set(d.g.edge_styles), {k for k, x in m.edges.items() if x.style is not None}, 'edge_styles')


def build(topology, mon, rng=None, settings=None, overwrite=False, attributes=None):
	"""builds a topology; attributes: dict node/edge -> attribute dict"""
	d = Driver(mon, settings=settings, overwrite=overwrite)
	attributes = attributes or {}
	for n in topology['nodes']:
		d.op_add(n, attributes.get('node', {}).get(n))
	for i, (s, e, id) in enumerate(topology['edges']):
		d.op_conn(s, e, id, attributes.get('edge', {}).get(str(i)), how=rng.randrange(5) if rng else i)
	return d


# program generation
def attributes(rng, edge=False, p=0.5, styles=True, texts=None):
	a = {}
	if rng.random() < p:
		a['label'] = rng.choice((texts or gen.TEXTS) + ['', None])
	if rng.random() < p:
		a['value'] = gen.value(rng)
	if styles and rng.random() < p * 0.6:
		a['style'] = dict(form=rng.choice(['dict', 'object']), args=gen.edge_style(rng) if edge else gen.node_style(rng))
	if rng.random() < p * 0.3:
		a['tooltip'] = rng.choice(texts or gen.TEXTS)
	if rng.random() < p * 0.3:
		a['parameters'] = {k: gen.value(rng) for k in rng.choice([['p'], ['p'], ['p', 'q'], ['p', 'note', 'q']])}
	return a


def program(rng, length, names, weights=None, p=0.4, styles=True, hows=5):
	"""a random edit program over few names, so that operations meet"""
	w = dict(add=10, Node=2, conn=22, Edge=3, rmnode=5, rmedge=3, rmany=6, rmedges=2, readd=5, addnode=2, move=1, bad=4, set=0, setedge=0, render=0, copy=0)
	w.update(weights or {})
	kinds = [k for k in w if w[k]]
	ws = [w[k] for k in kinds]
	ops = []
	policies = [None, 'warn', 'ignore', 'error', 'ignore']
	unknown = ['unknown', 'zz', '']
	for _ in range(length):
		kind = rng.choices(kinds, ws)[0]
		n = lambda: rng.choice(names) if rng.random() < 0.96 else rng.choice(unknown)
		if kind == 'add':
			ops.append(['add', rng.choice(names), attributes(rng, p=p, styles=styles), rng.choice(policies)])
		elif kind == 'Node':
			ops.append(['Node', rng.choice(names), attributes(rng, p=p, styles=styles)])
		elif kind == 'conn':
			ops.append(['conn', n(), n(), rng.choice(gen.IDS), attributes(rng, True, p=p, styles=styles), rng.choice(policies), rng.randrange(hows)])
		elif kind == 'Edge':
			ops.append(['Edge', rng.choice(names), rng.choice(names), rng.choice(gen.IDS), attributes(rng, True, p=p, styles=styles)])
		elif kind == 'rmnode':
			ops.append(['rmnode', n(), rng.randrange(2)])
		elif kind == 'rmedge':
			ops.append(['rmedge', rng.choice(names), rng.choice(names), rng.choice(gen.IDS), rng.randrange(2)])
		elif kind == 'rmany':
			ops.append(['rmany', rng.randrange(50), rng.randrange(2)])
		elif kind in ('rmedges', 'readd', 'addnode', 'move'):
			ops.append([kind, rng.choice(names)])
		elif kind == 'bad':
			what = rng.choice(['get', 'get-type', 'add-type', 'conn-type', 'style-type', 'edge-style-type', 'style-args', 'rm-unknown', 'rm-dead-edge', 'foreign'])
			ops.append(['bad', what, rng.choice(names + unknown)])
		elif kind in ('set', 'setedge'):
			what = rng.choice(['freeze', 'unfreeze', 'parameter', 'style', 'value', 'value', 'label'])
			edge = kind == 'setedge'
			if what == 'style':
				v = dict(form=rng.choice(['dict', 'object']), args=gen.edge_style(rng) if edge else gen.node_style(rng))
			elif what == 'label':
				v = rng.choice(gen.TEXTS)
			else:
				v = gen.value(rng)
			ops.append([kind, rng.randrange(50) if edge else rng.choice(names), what, v])
		elif kind == 'render':
			ops.append(['render'])
		elif kind == 'copy':
			ops.append(['copy', rng.randrange(3)])
	return ops


def make_overrides(tables, m):
	"""a representation that adds nothing but the overrides of the nodes and edges there are"""
	r = dict(nodes=[], edges=[])
	for table, entries in tables.items():
		keys = m.edges if table.startswith('edge') else m.nodes
		freeze = tuple if table.startswith('edge') else (lambda k: k)
		entries = {freeze(k): copy.deepcopy(x) for k, x in entries if freeze(k) in keys}
		if entries:
			r[table] = entries
	return r
