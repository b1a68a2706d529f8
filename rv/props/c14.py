import copy
import random
import re

from ..core import Prop
from .. import dot, gen, observe
from ..driver import ANY, Driver, attributes, expected_style, make_overrides, make_style, as_printed, printed, program, strict_value
from ..env import Graph, NodeStyle, EdgeStyle, Colour


DEFAULT_TITLE = '\nPowered by Abstract'
DEFAULT_LINK = 'https://github.com/idin/abstract'


class Offers:
	"""any object that offers a representation"""
	def __init__(self, representation):
		self.representation = representation

	def __graph__(self):
		return self.representation


BUILDERS = {
	'Graph(dict)': lambda g: Graph(g.__graph__()),
	'Graph(graph)': lambda g: Graph(g),
	'Graph(object)': lambda g: Graph(Offers(g.__graph__())),
	'from_dict': lambda g: Graph.from_dict(g.__graph__()),
	'append': lambda g: Graph().append(g),
	'append dict': lambda g: Graph().append(g.__graph__()),
	'append list': lambda g: Graph().append([[g]]),
	'Graph(list)': lambda g: Graph([g.__graph__()]),
	'twice': lambda g: Graph(Graph(g).__graph__()),
}
STATED = dict(
	label=['one', 'two', '\nthree', None, 'say "x"', '<<i>x</i>>'], label_url=['http://one/', None, 'http://two/?a="b"'], tooltip=['tip one', 'tip "two"', None],
	direction=['LR', 'TB', 'BT', 'rl'], strict=[True, False], ordering=[True, False]
)
SAYS = dict(colour_scheme=[x for x in observe.SCHEMES if x], stylist=['random', 'pensieve'], style_overwrite_allowed=[True, False])
NODE_OVERRIDES = dict(shape='shape', font='fontname', text_size='fontsize', shape_style='style', fill_colour='fillcolor', border_colour='color', text_colour='fontcolor')
EDGE_OVERRIDES = dict(font='fontname', text_size='fontsize', arrow_size='arrowsize', line_width='penwidth', label_style='lblstyle', colour='color', text_colour='fontcolor')


def shown(style):
	return dict(re.findall(r'"([^"]*)"="([^"]*)"', style.get_graphviz_str())) if style is not None else {}


def nested(items, rng, depth=0):
	"""the same items in lists and tuples of lists and tuples"""
	parts, i = [], 0
	while i < len(items):
		size = rng.choice([1, 1, 2, 3])
		part = items[i:i + size]
		parts += part if rng.random() < 0.4 or depth > 3 else [nested(part, rng, depth + 1)]
		if rng.random() < 0.1:
			parts.append(rng.choice([[], (), [[]]]))
		i += size
	return tuple(parts) if rng.random() < 0.4 else parts


class C14(Prop):
	id = 'C14'
	clauses = (
		'listed-once', 'listed-content', 'same-nodes', 'same-edges', 'same-content', 'same-settings', 'original-kept', 'independent', 'appended', 'appended-kept', 'stated',
		'override-named', 'override-others', 'override-rest', 'belongs'
	)
	rule = (
		'a case is one of: a graph rebuilt from its representation in nine ways; hand-written representations (list or dict nodes, edges of two or three parts, nested '
		'lists, graphs, objects) appended to a graph; override tables drawn next to the same graph without them; non-trivial: at least one node'
	)
	assumptions = (
		'an appended representation gives existing nodes and edges only attributes they lack',
		'a title can be put on a line of its own',
		'(start, end) keys of override tables are only used where one edge has them',
	)
	quick = 3000
	thorough = 80000
	shrink_keys = ('ops', 'edges', 'nodes')

	def generate(self, rng, index, tier):
		kind = rng.choice(['rebuild', 'rebuild', 'append', 'overrides'])
		t = gen.topology(rng, **gen.sizes(rng, 7, 12, big=0.03), hostile=rng.choice([0, 0, 0.4, 'family+int']))
		p = rng.choice([0.2, 0.6])
		case = dict(
			what=kind, nodes=[[n, attributes(rng, p=p)] for n in t['nodes']], edges=[e + [attributes(rng, True, p=p)] for e in t['edges']],
			settings={k: rng.random() < 0.5 for k in ('strict', 'ordering') if rng.random() < 0.4}, ops=[], render=False
		)
		if kind == 'rebuild':
			case['render'] = rng.random() < 0.4
			case['builder'] = rng.choice(list(BUILDERS))
			case['ops'] = program(rng, rng.choice([0, 0, 8]), t['nodes'] + ['extra'], dict(bad=0, Node=1, set=3, setedge=3), p=0.4)
			if rng.random() < 0.4:
				case['settings'].update(observe.settings(rng, p=0.2, strict=False, overwrite=False))
			if rng.random() < 0.3:
				case['says'] = {k: rng.choice(options) for k, options in SAYS.items() if rng.random() < 0.6}
			if rng.random() < 0.3:
				case['pending'] = gen.override_tables(rng, t)
		elif kind == 'append':
			case['parts'] = [self.part(rng, t, p) for _ in range(rng.choice([1, 1, 2, 3, 3, 5]))]
			for i, part in enumerate(case['parts']):
				if i > 0 and rng.random() < 0.2:
					part['again'] = rng.randrange(i)
			case['nest'] = rng.choice([0, 0, rng.randrange(1, 1000)])
			case['settings'].update(observe.settings(rng, p=0.2, strict=False, global_styles=False))
			if rng.random() < 0.4:
				case['settings']['tooltip'] = rng.choice(STATED['tooltip'])
			case['render'] = rng.random() < 0.4
		else:
			case['overrides'] = self.overrides(rng, t)
			case['as'] = rng.choice(['Graph', 'from_dict', 'append'])
			case['later'] = rng.choice([0, 0, 1, 2])
			case['settings'].update(observe.settings(rng, p=0.15, global_styles=False, strict=False, overwrite=False))
			if case['as'] == 'append' and rng.random() < 0.1:
				case['settings']['stylist'] = None
			if case['settings'].get('stylist', 'none') is None and case['as'] != 'append':
				# a dictionary is then styled, a graph is not
				del case['settings']['stylist']
			if rng.random() < 0.5:
				for _, a in case['nodes'] + [e[2:] for e in case['edges']]:
					a.pop('style', None)
		return case

	def part(self, rng, t, p):
		"""a representation; new nodes and existing ones"""
		names = [n for n in t['nodes'] if rng.random() < 0.4] + [n for n in ('new 1', 'new 2', 'new 3') if rng.random() < 0.6]
		nodes = [[n, attributes(rng, p=p)] for n in names]
		every = names + t['nodes']
		edges = []
		for _ in range(rng.randint(0, 5)):
			if every:
				e = [rng.choice(every), rng.choice(every)]
				if rng.random() < 0.6:
					e += [rng.choice(gen.IDS), attributes(rng, True, p=p)]
				elif t['edges'] and rng.random() < 0.5:
					e = rng.choice(t['edges'])[:2]
				edges.append(e)
		stated = {}
		for key, options in STATED.items():
			if rng.random() < 0.2:
				stated[key] = rng.choice(options)
		for key, make, table in (('node_style', gen.node_style, NODE_OVERRIDES), ('edge_style', gen.edge_style, EDGE_OVERRIDES)):
			if rng.random() < 0.15:
				stated[key] = {k: v for k, v in make(rng).items() if k in table}
		return dict(global_key=rng.choice(['global', 'graph']), nodes=nodes, edges=edges, stated=stated, as_list=rng.random() < 0.3, form=rng.choice(['dict', 'dict', 'graph', 'object']), nones=rng.random() < 0.4, tuples=rng.random() < 0.5)

	def overrides(self, rng, t):
		o = dict(node_styles=[], node_colours=[], edge_styles=[], edge_colours=[])
		for n in t['nodes']:
			x = rng.random()
			if x < 0.3:
				s = gen.node_style(rng)
				o['node_styles'].append([n, {k: v for k, v in s.items() if k in NODE_OVERRIDES}])
			elif x < 0.5:
				o['node_colours'].append([n, rng.choice(gen.COLOURS)])
		pairs = [tuple(e[:2]) for e in t['edges']]
		for e in t['edges']:
			x = rng.random()
			key = e[:2] if pairs.count(tuple(e[:2])) == 1 and rng.random() < 0.7 else e[:3]
			if x < 0.3:
				s = gen.edge_style(rng)
				o['edge_styles'].append([key, {k: v for k, v in s.items() if k in EDGE_OVERRIDES}])
			elif x < 0.5:
				o['edge_colours'].append([key, rng.choice(gen.COLOURS)])
		return o

	def execute(self, case, mon):
		d = Driver(mon, settings=observe.make_settings(case['settings']))
		for n, a in case['nodes']:
			d.op_add(n, a)
		for i, (s, e, id, a) in enumerate(case['edges']):
			if s in d.m.nodes and e in d.m.nodes:
				d.op_conn(s, e, id, a, how=i)
		for op in case['ops']:
			d.run(op)
		if case['render']:
			mon.call('render', d.g.render)
			for n, x in d.m.nodes.items():
				x.style = as_printed(d.objects[n])
			for k, x in d.m.edges.items():
				x.style = as_printed(d.edge_objects[k])
		getattr(self, 'judge_' + case['what'])(d, case, mon)
		mon.state((d.m.shape(), case['what']))

	def judge_rebuild(self, d, case, mon):
		g, m = d.g, d.m
		plain = g.__graph__()
		if case.get('pending'):
			mon.call('append', g.append, make_overrides(case['pending'], m))
		before = observe.snapshot(g)
		r, _ = mon.call('__graph__', g.__graph__, clause='listed-once')
		mon.equal('listed-once', list(r['nodes']), list(m.nodes), 'nodes of the representation')
		mon.equal('listed-once', sorted(((s, e, x['id']) for s, e, x in r['edges']), key=repr), sorted(m.edges, key=repr), 'edges of the representation')
		for name, x in m.nodes.items():
			y = r['nodes'][name]
			mon.check('listed-content', str(y['label'] or name) == str(x.label or name), lambda: f'label of node {name!r} in the representation is {y["label"]!r}, expected {x.label!r}')
			mon.equal('listed-content', (strict_value(y['value']), printed(y['style'])), (strict_value(x.value), expected_style(x.style)), f'node {name!r} in the representation')
		for s, e, y in r['edges']:
			x = m.edges[(s, e, y['id'])]
			mon.equal('listed-content', (y['label'], strict_value(y['value']), printed(y['style'])), (x.label, strict_value(x.value), expected_style(x.style, True)), f'edge {(s, e, y["id"])!r} in the representation')
		h, warned = mon.call(case['builder'], BUILDERS[case['builder']], g, clause='same-nodes')
		mon.equal('same-nodes', len(warned), 0, f'warnings of {case["builder"]}')
		self.compare(h, m, mon, ordered=True)
		settings = (case['settings'].get('strict', False), case['settings'].get('ordering', True))
		q = h.__graph__()
		made = case['settings']
		if 'label_background_colour' not in made:
			shown = dict(strict=settings[0], ordering=settings[1], label=made.get('label', DEFAULT_TITLE), label_url=made.get('label_url', DEFAULT_LINK))
			shown.update(direction=str(dot.parse(h.get_graphviz_str()).attributes.get('rankdir', 'TB')), tooltip=None)
			self.judge_stated(h, shown, mon)
		mon.equal('same-settings', (dot.parse(h.get_graphviz_str()).strict, q['strict'], q['ordering']), (settings[0],) + settings, f'strictness and ordering after {case["builder"]}')
		observe.belongs(h, mon, 'belongs')
		mon.check('original-kept', before == observe.snapshot(g), 'the graph changed by being represented')
		if case.get('says'):
			self.judge_says(r, case['says'], mon)
			self.judge_scheme(g, r, case['says'].get('colour_scheme'), mon)
		if case.get('pending'):
			made = observe.make_settings({k: v for k, v in case['settings'].items() if k in ('colour_scheme', 'stylist', 'style_overwrite_allowed')})
			if made.get('stylist', '') is not None:
				tables = make_overrides(case['pending'], m)
				x, y = (mon.call('Graph', Graph, z, clause='override-named', **made)[0] for z in (plain, r))
				mon.call('append', x.append, tables, clause='override-named')
				for drawn in (x, y):
					mon.call('render', drawn.render, clause='override-named')
				for a, b in zip(x.nodes, y.nodes):
					mon.equal('override-named', printed(b.style), printed(a.style), f'{a} of a graph with these overrides and of one built from the representation of a graph that has them')
				edges = y.edges_dict
				for k, e in x.edges_dict.items():
					mon.equal('override-named', printed(edges[k].style), printed(e.style), f'{e} of a graph with these overrides and of one built from the representation of a graph that has them')
		self.judge_global(g, r, case['settings'], mon)
		for x in h.nodes + h.edges:
			if x.style is not None:
				x.style.colour = 'navy'
				x.style.reset_colours()
				x.style.colour = 'navy'
		mon.call('render', h.render, clause='independent')
		h.add_node('later')
		mon.check('independent', before == observe.snapshot(g), 'the graph changed with the one built from it')

	def judge_global(self, original, r, settings, mon):
		"""the global styles of a graph are those of one built from its representation"""
		kept = {k: v for k, v in settings.items() if k in ('colour_scheme', 'stylist', 'style_overwrite_allowed')}
		styles = {k: v for k, v in settings.items() if k in ('node_style', 'edge_style')}
		if styles:
			bare = dict(r, global_node_style=None, global_edge_style=None)
			told = mon.call('Graph', lambda: Graph(bare, **observe.make_settings(dict(kept, **styles))), clause='same-settings')[0]
			built = mon.call('Graph', lambda: Graph(r, **observe.make_settings(kept)), clause='same-settings')[0]
			graphs = [told, built]
			if kept.get('stylist', '') is not None:
				graphs.append(mon.call('Graph', lambda: Graph(original, **observe.make_settings(kept)), clause='same-settings')[0])
			for g in graphs:
				mon.call('render', g.render, clause='same-settings')
			for a, b in [x for g in graphs[1:] for x in zip(told.nodes + told.edges, g.nodes + g.edges)]:
				mon.equal('same-settings', printed(b.style), printed(a.style), f'{a} of a graph built from the representation of one with global styles {sorted(styles)}')

	def judge_says(self, r, says, mon):
		"""scheme, stylist and permission of a representation count where the call does not state them"""
		asked = {k: says[k] for k in ('colour_scheme', 'stylist') if k in says}
		silent, _ = mon.call('Graph', lambda: Graph(dict(r, **says), **{k: None for k in asked}), clause='stated')
		stated, _ = mon.call('Graph', lambda: Graph(r, style_overwrite_allowed=says.get('style_overwrite_allowed', False), **asked), clause='stated')
		mon.equal('stated', silent.render().source, stated.render().source, f'picture of a representation that states {says!r}')
		for g in (silent, stated):
			n = g.add_node('styled', style=dict(colour='red'))
			mon.call('style', setattr, n, 'style', dict(colour='navy'), raises=None if says.get('style_overwrite_allowed') else ANY, clause='stated')

	def judge_scheme(self, g, r, asked, mon):
		"""a graph built from another one has the scheme that the call states, or else the one of the other"""
		for scheme in (asked, None):
			drawn = [
				mon.call('Graph', Graph, x, colour_scheme=scheme, stylist='random', style_overwrite_allowed=True, clause='stated')[0].render().source for x in (g, r)
			]
			mon.equal('stated', drawn[0], drawn[1], f'pictures of graphs built from a graph and from its representation with colour_scheme={scheme!r}')

	def compare(self, h, m, mon, ordered=False, clauses=('same-nodes', 'same-edges', 'same-content'), details=False):
		names = [n.name for n in h.nodes]
		if ordered:
			mon.equal(clauses[0], names, list(m.nodes), 'nodes')
		else:
			mon.equal(clauses[0], sorted(names, key=repr), sorted(m.nodes, key=repr), 'nodes')
		mon.equal(clauses[1], sorted((e.id for e in h.edges), key=repr), sorted(m.edges, key=repr), 'edges')
		edges = h.edges_dict
		mon.equal(clauses[1], len(edges), len(m.edges), 'edges_dict')
		for name, x in m.nodes.items():
			n = h.nodes_dict[name]
			mon.equal(clauses[2], (n.label, strict_value(n.value), printed(n.style)), (str(x.label or name), strict_value(x.value), expected_style(x.style)), f'node {name!r}')
			if details:
				mon.equal(clauses[2], observe.parameters(n), [(k, strict_value(v)) for k, v in x.parameters.items()], f'parameters of node {name!r}')
		for key, x in m.edges.items():
			e = edges[key]
			mon.equal(clauses[2], (e.label, strict_value(e.value), printed(e.style)), (x.label, strict_value(x.value), expected_style(x.style, True)), f'edge {key!r}')
		for name in m.nodes:
			n = h.nodes_dict[name]
			mon.equal(clauses[1], sorted((e.id for e in n.inward_edges), key=repr), sorted(m.inward(name), key=repr), f'edges into {name!r}')
			if ordered:
				mon.equal(clauses[1], [e.id for e in n.outward_edges], m.outward(name), f'edges out of {name!r}')

	# append
	def judge_append(self, d, case, mon):
		g, m = d.g, d.m
		kept = {n: observe.item_state(x) for n, x in g.nodes_dict.items()}
		settings = observe.make_settings(case['settings'])
		stated = dict(
			strict=settings.get('strict', False), ordering=settings.get('ordering', True), label=settings.get('label', DEFAULT_TITLE), label_url=settings.get('label_url', DEFAULT_LINK),
			tooltip=settings.get('tooltip'), direction=settings.get('direction', 'LR')
		)
		items = []
		contents = []
		ids = {n: id(x) for n, x in g.nodes_dict.items()}
		touched = set()
		for part in case['parts']:
			again = part.get('again')
			if again is not None and again < len(items) and not any(a and a.get('style') for a in [*contents[again][0].values(), *[a for _, a in contents[again][1]]]):
				items.append(items[again])
				contents.append(contents[again])
				self.take(m, *contents[again], stated, touched)
				continue
			nodes, edges = {}, []
			plain = part['form'] == 'graph'
			for n, a in part['nodes']:
				a = {k: v for k, v in a.items() if v is not None}
				if part['as_list']:
					a = {}
				elif n in m.nodes:
					a = self.lacking(m.nodes[n], a)
				if plain:
					a = {k: v for k, v in a.items() if k in ('label', 'value', 'style')}
				nodes[n] = a
			known = set(m.nodes) | set(nodes)
			seen = set()
			for e in part['edges']:
				if plain and not (e[0] in nodes and e[1] in nodes):
					continue
				if e[0] not in known or e[1] not in known:
					continue
				key = (e[0], e[1], e[2] if len(e) > 2 else None)
				if plain and key in seen:
					continue
				a = None
				if len(e) > 2:
					a = {k: v for k, v in e[3].items() if v is not None}
					if key in seen:
						a = {}
					elif key in m.edges:
						a = self.lacking(m.edges[key], a)
					if plain:
						a = {k: v for k, v in a.items() if k in ('label', 'value', 'style')}
				seen.add(key)
				edges.append((key, a))
			says = part['stated']
			items.append(self.item(part, nodes, edges, says, d))
			if plain:
				says = dict(dict(strict=False, ordering=True, label=DEFAULT_TITLE, label_url=DEFAULT_LINK), **{k: v for k, v in says.items() if k not in ('tooltip', 'direction')})
				says = {k: v for k, v in says.items() if k not in ('node_style', 'edge_style')}
			contents.append((nodes, edges, says))
			self.take(m, *contents[-1], stated, touched)
		argument = (items[0] if len(items) == 1 else items) if case['nest'] == 0 else nested(items, random.Random(case['nest']))
		result, _ = mon.call('append', g.append, argument, clause='appended')
		mon.check('appended', result is g, 'append returns something else than the graph')
		self.compare(g, m, mon, clauses=('appended', 'appended', 'appended'), details=True)
		mon.equal('appended-kept', {n: id(g.nodes_dict[n]) for n in ids}, ids, 'node objects that were there')
		mon.equal('appended-kept', [n.name for n in g.nodes][:len(ids)], list(ids), 'order of the nodes that were there')
		for n, state in kept.items():
			if n not in touched:
				mon.equal('appended-kept', observe.item_state(g.nodes_dict[n]), state, f'node {n!r} that was there')
		self.judge_stated(g, stated, mon)
		observe.belongs(g, mon, 'belongs')
		mon.call('render', g.render, clause='appended')
		for what, things, table in (('node_style', g.nodes, NODE_OVERRIDES), ('edge_style', g.edges, EDGE_OVERRIDES)):
			for x in things:
				observed = shown(x.style)
				for key, value in (stated.get(what) or {}).items():
					mon.check('stated', self.drawn_as(observed[table[key]], key, value), lambda: f'{x} is drawn with {observed}, but {key} of every one was stated to be {value!r}')

	def drawn_as(self, observed, key, value):
		return observed.startswith(Colour(value).hexadecimal) if 'colour' in key else observed == str(value)

	def take(self, m, nodes, edges, says, stated, touched):
		"""what appending a representation does to the model"""
		stated.update(says)
		for n, a in nodes.items():
			a = copy.deepcopy(a)
			if n in m.nodes:
				if a:
					touched.add(n)
				for k in ('label', 'value', 'style'):
					if k in a:
						setattr(m.nodes[n], k, a[k])
			else:
				m.add_node(n, **a)
		for key, a in edges:
			a = copy.deepcopy(a or {})
			if key in m.edges:
				for k in ('label', 'value', 'style'):
					if k in a:
						setattr(m.edges[key], k, a[k])
			else:
				m.connect(*key, **a)

	def judge_stated(self, g, stated, mon):
		drawing = dot.parse(g.get_graphviz_str())
		a = drawing.attributes
		mon.equal('stated', (drawing.strict, g.__graph__()['ordering'], str(a.get('rankdir', 'TB'))), (stated['strict'], stated['ordering'], stated['direction'].upper()), 'strictness, ordering and direction')
		title = stated['label']
		if title is None:
			mon.check('stated', 'label' not in a and 'href' not in a, lambda: f'title {a.get("label")!r}, expected none')
		else:
			if title.startswith('<'):
				same = isinstance(a.get('label'), dot.Html) and a['label'] == title[1:-1]
			else:
				same = dot.same_text(str(a.get('label')).lstrip('\n'), title.lstrip('\n')) and not isinstance(a.get('label'), dot.Html)
			mon.check('stated', same, lambda: f'title {a.get("label")!r}, expected {title!r}')
			mon.check('stated', 'href' not in a if stated['label_url'] is None else dot.same_text(a.get('href'), stated['label_url']), lambda: f'link {a.get("href")!r}, expected {stated["label_url"]!r}')
		mon.check('stated', 'tooltip' not in a if stated['tooltip'] is None else dot.same_text(a.get('tooltip'), stated['tooltip']), lambda: f'tooltip {a.get("tooltip")!r}, expected {stated["tooltip"]!r}')

	def lacking(self, item, a):
		"""only attributes that the item lacks"""
		return {k: v for k, v in a.items() if k in ('label', 'value', 'style') and not getattr(item, k)}

	def item(self, part, nodes, edges, says, d):
		def arguments(a, edge=False):
			kw = d._kwargs(a, edge)
			if part['nones']:
				for k in ('label', 'value', 'style'):
					kw.setdefault(k, None)
			return kw
		if part['form'] == 'graph':
			g = Graph(**{k: v for k, v in says.items() if k not in ('node_style', 'edge_style')})
			for n, a in nodes.items():
				g.add_node(n, **d._kwargs(a))
			for (s, e, id), a in edges:
				g.connect(s, e, id=id, **d._kwargs(a or {}, True))
			return g
		r = dict(nodes=list(nodes) if part['as_list'] else {n: arguments(a) for n, a in nodes.items()}, edges=[])
		for (s, e, id), a in edges:
			x = [s, e]
			if a is not None:
				kw = arguments(a, True)
				if id is not None or part['nones']:
					kw['id'] = id
				x.append(kw)
			r['edges'].append(tuple(x) if part['tuples'] else x)
		for k, v in says.items():
			r[f'{part["global_key"]}_{k}' if k in ('node_style', 'edge_style') else k] = dict(v) if isinstance(v, dict) else v
		return Offers(r) if part['form'] == 'object' else r

	# overrides
	def judge_overrides(self, d, case, mon):
		m = d.m
		settings = observe.make_settings(case['settings'])
		twin = d.g.copy()
		o = case['overrides']
		tables = dict(
			node_styles={n: dict(s) for n, s in o['node_styles'] if n in m.nodes}, node_colours={n: c for n, c in o['node_colours'] if n in m.nodes},
			edge_styles={tuple(k): dict(s) for k, s in o['edge_styles'] if self.named(m, k)}, edge_colours={tuple(k): c for k, c in o['edge_colours'] if self.named(m, k)}
		)
		# a part of the tables follows in representations of their own
		later = []
		for i in range(case['later']):
			later.append(dict(nodes=[], edges=[]))
			for table, entries in tables.items():
				keys = [k for j, k in enumerate(entries) if j % 3 == i]
				if keys:
					later[-1][table] = {k: entries[k] for k in keys}
		first = {table: {k: x for k, x in entries.items() if not any(k in y.get(table, {}) for y in later)} for table, entries in tables.items()}
		nodes = {n: {k: v for k, v in d._kwargs(self.given(x)).items()} for n, x in m.nodes.items()}
		edges = [[k[0], k[1], dict(d._kwargs(self.given(x), True), id=k[2])] for k, x in m.edges.items()]
		if case['as'] == 'append':
			g = d.g
			mon.call('append', g.append, dict(nodes=[], edges=[], **first), clause='override-named')
		elif case['as'] == 'Graph':
			g, _ = mon.call('Graph(dict)', Graph, dict(nodes=nodes, edges=edges, **first), clause='override-named', **settings)
		else:
			g, _ = mon.call('from_dict', Graph.from_dict, dict(nodes=nodes, edges=edges, **first), clause='override-named')
			settings = {}
			twin = Graph.from_dict(dict(nodes=nodes, edges=edges))
		if later:
			mon.call('append', g.append, later if len(later) > 1 else later[0], clause='override-named')
		mon.call('render', g.render, clause='override-named')
		mon.call('render', twin.render, clause='override-named')
		ids = {}
		for key in m.edges:
			ids[key] = key
			ids[key[:2]] = key
		styles = {ids[k]: s for k, s in tables['edge_styles'].items()}
		colours = {ids[k]: c for k, c in tables['edge_colours'].items()}
		for n in m.nodes:
			self.judge_item(mon, f'node {n!r}', g.nodes_dict[n], twin.nodes_dict[n], tables['node_styles'].get(n), tables['node_colours'].get(n), NODE_OVERRIDES, NodeStyle, m.nodes[n])
		mine, other = g.edges_dict, twin.edges_dict
		for key, x in m.edges.items():
			self.judge_item(mon, f'edge {key!r}', mine[key], other[key], styles.get(key), colours.get(key), EDGE_OVERRIDES, EdgeStyle, x)

	def named(self, m, key):
		return tuple(key) in m.edges if len(key) == 3 else len([k for k in m.edges if k[:2] == tuple(key)]) == 1

	def given(self, x):
		return {k: v for k, v in dict(label=x.label, value=x.value, style=x.style).items() if v is not None}

	def judge_item(self, mon, what, mine, other, style, colour, table, cls, item):
		observed, plain = shown(mine.style), shown(other.style)
		if other.style is None and (style is not None or colour is not None):
			# without a stylist there is nothing but the override
			plain = shown(cls()) if colour is None else shown(cls(colour=colour))
			mon.check('override-named', mine.style is not None, lambda: f'{what} has no style, but is overridden with {style or colour!r}')
		if style is None and colour is None:
			mon.equal('override-others', observed, plain, f'{what}, which no override names')
			mon.check('override-others', True)
		elif style is not None:
			opacity = None if item.style is None else item.style['args'].get('opacity')
			for key, value in style.items():
				if 'colour' in key:
					same = observed[table[key]].startswith(Colour(value).hexadecimal)
				else:
					same = observed[table[key]] == str(value)
				mon.check('override-named', same, lambda: f'{what} is drawn with {observed}, but {key} is overridden with {value!r} (opacity {opacity})')
			derived = {'color', 'fillcolor', 'fontcolor'} if any('colour' in k for k in style) else set()
			names = {table[k] for k in style} | derived
			mon.equal('override-rest', {k: v for k, v in observed.items() if k not in names}, {k: v for k, v in plain.items() if k not in names}, f'other attributes of {what}')
			mon.check('override-rest', True)
		elif item.style is None or cls is NodeStyle:
			# a style inherited from a parent with a darker fill keeps the fill darker
			options = [shown(cls(colour=colour))] + ([shown(cls(colour=colour, lighter_fill=False))] if cls is NodeStyle else [])
			keys = [k for k in ('color', 'fillcolor', 'fontcolor') if k in observed]
			mon.check(
				'override-named', any(all(observed[k][:7] == x[k][:7] for k in keys) for x in options),
				lambda: f'{what} is drawn with {observed}, but its colour is overridden with {colour!r}: {options}'
			)
			colours = ('color', 'fillcolor', 'fontcolor')
			mon.equal('override-rest', {k: v for k, v in observed.items() if k not in colours}, {k: v for k, v in plain.items() if k not in colours}, f'other attributes of {what}')
		else:
			main = 'color' if cls is EdgeStyle else None
			if main:
				mon.check('override-named', observed[main].startswith(Colour(colour).hexadecimal), lambda: f'{what} is drawn with {observed}, but its colour is overridden with {colour!r}')

	def fingerprint(self, case, mon):
		return super().fingerprint(case, mon) if case['nodes'] else None


PROP = C14()
