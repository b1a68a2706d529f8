import colorsys
import copy
import random
import re
from collections import Counter
from fractions import Fraction
from numbers import Real

from ..core import Prop, Mon
from .. import dot, gen, observe
from ..driver import Driver, attributes, make_style, as_printed, printed, program, strict_value
from ..env import Colour, EdgeStyle, Graph, NodeStyle, Scheme
from ..model import loop_info
from ..values import MARK

# what a global setting (the argument) states is printed as
NODE_SHOWN = dict(shape='shape', font='fontname', text_size='fontsize', shape_style='style', fill_colour='fillcolor', border_colour='color', text_colour='fontcolor', opacity='opacity')
EDGE_SHOWN = dict(font='fontname', text_size='fontsize', arrow_size='arrowsize', line_width='penwidth', label_style='lblstyle', colour='color', text_colour='fontcolor')
NODE_COLOURS = ('fillcolor', 'color', 'fontcolor')
EDGE_COLOURS = ('color', 'fontcolor')


def shown(style):
	return dict(re.findall(r'"([^"]*)"="([^"]*)"', style.get_graphviz_str()))


def rgb(hexadecimal):
	return tuple(int(hexadecimal[i:i + 2], 16) for i in (1, 3, 5))


def scheme_colours(setting):
	if setting is None:
		return Scheme(name='pensieve2').colours
	s = observe.make_scheme(setting)
	return (Scheme(name=s) if isinstance(s, str) else s).colours


class C20(Prop):
	id = 'C20'
	clauses = (
		'has-style', 'explicit-kept', 'global-applies', 'loops', 'scheme-colours', 'even', 'random-even', 'edge-shade', 'edge-arrow', 'edge-own', 'edge-independent',
		'not-shared', 'drawn', 'later'
	)
	rule = (
		'a case is a graph (all shapes, loops and linked loops often) with no, few or many explicit styles, schemes, both stylists and global settings that is rendered once, '
		'then edited and rendered again; what is printed for every node and edge is judged against the rules, and a second graph with other edges around checks '
		'that edge styles depend on nothing else; non-trivial: at least one node'
	)
	assumptions = (
		'evenness is judged over the nodes that one render styles, without global settings; edge shades without global settings and overrides',
		'a global setting that is a whole style object states every attribute, so every element is drawn like it',
	)
	quick = 2500
	thorough = 80000
	shrink_keys = ('ops', 'edges', 'nodes')

	def generate(self, rng, index, tier):
		big = rng.random() < 0.08
		kinds = rng.choice([None, None, ['cycles', 'lollipop', 'two-way', 'cycle', 'random'], ['dag', 'tree', 'forest', 'diamonds', 'star', 'bipartite', 'empty', 'multi', 'hub', 'isolated']])
		t = gen.topology(rng, max_nodes=40 if big else 9, max_edges=60 if big else 16, hostile=rng.choice([0, 0, 0, 0.4, 'family+int']), kinds=kinds)
		settings = {}
		if rng.random() < 0.5:
			settings['stylist'] = rng.choice(['pensieve', 'random'])
		if rng.random() < 0.6:
			settings['colour_scheme'] = rng.choice(observe.SCHEMES + [dict(scheme='pastel15', colours=rng.sample(['red', 'blue', 'green', 'gold', 'navy', '#123456'], rng.randint(1, 4)))])
		if rng.random() < 0.2:
			settings['strict'] = True
		globals_ = rng.random() < 0.3
		if globals_:
			for key, make in (('node_style', gen.node_style), ('edge_style', gen.edge_style)):
				if rng.random() < 0.7:
					settings[key] = dict(form=rng.choice(['dict', 'dict', 'object']), args=make(rng))
			if settings.get('node_style', {}).get('form') == 'dict' and rng.random() < 0.3:
				settings['node_style']['args']['shape'] = rng.choice(['auto', 'AUTO', 'automatic', 'Auto'])
			if rng.random() < 0.3:
				# names that an automatic shape is about
				short = {n: 'abcdefghijklmnopqrstuvwxyz'[i % 26] + ('' if i < 26 else 'é') for i, n in enumerate(t['nodes'])}
				if rng.random() < 0.3 and t['nodes']:
					short[rng.choice(t['nodes'])] = rng.choice(['abc', 100, 42])
				t.update(nodes=[short[n] for n in t['nodes']], edges=[[short[a], short[b], id] for a, b, id in t['edges']])
		p = rng.choice([0, 0, 0.3, 0.7])
		node, edge = {}, {}
		for n in t['nodes']:
			node[repr(n)] = attributes(rng, p=0.2, styles=False)
			if rng.random() < p:
				node[repr(n)]['style'] = dict(form=rng.choice(['dict', 'object']), args=gen.node_style(rng))
		for i in range(len(t['edges'])):
			a = edge[str(i)] = attributes(rng, True, p=0.2, styles=False)
			if rng.random() < p:
				a['style'] = dict(form=rng.choice(['dict', 'object']), args=gen.edge_style(rng))
			if rng.random() < 0.5:
				a['value'] = rng.choice([0, 1, 2, 3.5, -1, 0.25, True, 'text', None, [1], '2', 100, {MARK: 'fraction'}, {MARK: 'half'}, {MARK: 'nothing'}, {MARK: 'decimal'}, {MARK: 'complex'}])
		return dict(
			kind=t['kind'], nodes=t['nodes'], edges=t['edges'], node=node, edge=edge, settings=settings, seed=rng.randrange(10**6), refill=rng.random() < 0.3,
			ops=program(rng, rng.choice([0, 0, 3, 8]), t['nodes'] + ['extra', 'more'], dict(bad=0, copy=1, add=14, conn=14, move=1, Node=3), p=0.3)
		)

	def execute(self, case, mon):
		settings = observe.make_settings(case['settings'])
		d = Driver(mon, settings=settings)
		for n in case['nodes']:
			d.op_add(n, case['node'].get(repr(n)))
		for i, (s, e, id) in enumerate(case['edges']):
			if s in d.m.nodes and e in d.m.nodes:
				d.op_conn(s, e, id, case['edge'].get(str(i)), how=i)
		self.judge(d, case, mon)
		self.independent(d, case, mon)
		if case['ops']:
			d.adopt_styles()
			if any(case['settings'].get(k) for k in ('node_style', 'edge_style')):
				self.adopt_all(d)
			for op in case['ops']:
				d.run(op)
			self.judge(d, case, mon, later=True)
		if case['refill']:
			self.refill(d, case, mon)
		mon.state((d.m.shape(), case['settings'].get('stylist'), str(case['settings'].get('colour_scheme'))))

	def refill(self, d, case, mon):
		"""a graph that was emptied and filled again is styled like a new one"""
		rng = random.Random(case['seed'])
		for x in d.g.nodes:
			mon.call('remove_node', d.g.remove_node, x)
		names = list(dict.fromkeys(case['nodes']))
		rng.shuffle(names)
		edges = [tuple(e) for e in case['edges'] if rng.random() < 0.7]
		rng.shuffle(edges)
		styles = {n: gen.node_style(rng) for n in names if rng.random() < 0.2}
		new = Graph(**observe.make_settings(case['settings']))
		for g in (d.g, new):
			for n in names:
				g.add_node(n, style=dict(styles[n]) if n in styles else None)
			for s, e, id in edges:
				if s in g and e in g:
					g.connect(e, s, id=id, if_edge_exists='ignore')
			mon.call('render', g.render)
		for x, y in zip(d.g.nodes + d.g.edges, new.nodes + new.edges):
			mon.equal('later', printed(x.style), printed(y.style), f'style of {x} in a graph that was emptied and filled again, and in a new one')

	def adopt_all(self, d):
		for items, objects in ((d.m.nodes, d.objects), (d.m.edges, d.edge_objects)):
			for key, x in items.items():
				x.style = as_printed(objects[key])

	def judge(self, d, case, mon, later=False):
		g, m, settings = d.g, d.m, case['settings']
		source, _ = mon.call('render', g.render)
		mon.event('rendered', len(m.nodes), len(m.edges), later)
		if later:
			mon.clauses['later'] += 1
		g_node, g_edge = settings.get('node_style'), settings.get('edge_style')
		auto_nodes = [n for n, x in m.nodes.items() if x.style is None]
		auto_edges = [k for k, x in m.edges.items() if x.style is None]
		drawing = dot.parse(source.source)
		mon.equal('drawn', len(drawing.nodes), len(m.nodes), 'number of node statements')
		drawn_edges = [a for _, _, a in drawing.edges]
		for (_, a), name in zip(drawing.nodes, m.nodes):
			node = d.objects[name]
			mon.check('has-style', node.has_style() and node.style is not None, lambda: f'node {name!r} has no style after rendering')
			mon.check('drawn', shown(node.style).items() <= {k: str(v) for k, v in a.items()}.items(), lambda: f'node {name!r} with style {shown(node.style)!r} is drawn as {a!r}')
		for edge, a in zip(g.edges, drawn_edges):
			mon.check('has-style', edge.has_style() and edge.style is not None, lambda: f'edge {edge.id!r} has no style after rendering')
			mon.check('drawn', shown(edge.style).items() <= {k: str(v) for k, v in a.items()}.items(), lambda: f'edge {edge.id!r} with style {shown(edge.style)!r} is drawn as {a!r}')
		for items, objects, setting, table, colours, edge in (
			(m.nodes, d.objects, g_node, NODE_SHOWN, NODE_COLOURS, False), (m.edges, d.edge_objects, g_edge, EDGE_SHOWN, EDGE_COLOURS, True)
		):
			for key, x in items.items():
				self.judge_explicit(mon, key, x, objects[key], setting, table, colours, edge)
		self.judge_sharing(mon, d, auto_nodes, auto_edges)
		if g_node is None:
			self.judge_nodes(mon, d, settings, auto_nodes)
		if g_node is None and g_edge is None:
			self.judge_edges(mon, d, auto_edges)

	def judge_explicit(self, mon, key, x, obj, setting, table, colours, edge):
		what = f'{"edge" if edge else "node"} {key!r}'
		now = shown(obj.style)
		stated = self.stated(setting['args'], obj.graph) if setting else {}
		if setting and setting['form'] == 'object':
			# a whole style states every attribute
			mon.equal('global-applies', now, shown((EdgeStyle if edge else NodeStyle)(**stated)), f'what is printed for {what}, the global style is an object made from {stated!r}')
			return
		if setting and x.style is None:
			# nothing else gives it a style
			mon.equal('global-applies', now, shown((EdgeStyle if edge else NodeStyle)(**stated)), f'what is printed for {what}, which has no style of its own, the global style is {stated!r}')
			return
		if x.style is not None:
			if 'observed' in x.style:
				before = dict(re.findall(r'"([^"]*)"="([^"]*)"', x.style['observed'][1]))
			else:
				before = shown((EdgeStyle if edge else NodeStyle)(**x.style['args']))
			changed = {table[k] for k in stated if k in table}
			if 'opacity' in stated:
				# a part of the printed colours, compared without it
				for k in colours:
					before[k], now[k] = before[k][:7], now[k][:7]
			for k in before:
				if k not in changed:
					mon.equal('explicit-kept', now.get(k), before[k], f'{k} of {what} with an explicit style {x.style!r:.300}, global setting {stated!r}')
			mon.equal('explicit-kept', set(now) - set(before) - changed, set(), f'attributes of {what}')
		for k, v in stated.items():
			if k not in table or v is None:
				continue
			text = now.get(table[k])
			if k.endswith('colour'):
				mon.equal('global-applies', str(text)[:7], Colour(v).hexadecimal[:7], f'{table[k]} of {what}, global setting {stated!r}')
			else:
				mon.equal('global-applies', text, str(v), f'{table[k]} of {what}, global setting {stated!r}')

	def stated(self, args, g):
		"""an automatic shape is a circle where every name has less than three characters"""
		if not str(args.get('shape', '')).lower().startswith('auto'):
			return args
		if all(len(str(n.name)) < 3 for n in g.nodes):
			return dict(args, shape='circle')
		return args

	def judge_nodes(self, mon, d, settings, auto_nodes):
		m = d.m
		on_cycle, _ = loop_info(m)
		colours = scheme_colours(settings.get('colour_scheme'))
		usable = {c.hexadecimal: shown(NodeStyle(colour=c)) for c in colours}
		scattered = settings.get('stylist') == 'random'
		used = Counter({c: 0 for c in usable})
		for name in auto_nodes:
			style = d.objects[name].style
			if not scattered and name in on_cycle:
				s = shown(style)
				mon.equal('loops', (s['shape'], s['color'][:7], s['fillcolor'][:7]), ('circle', Colour('red').hexadecimal[:7], Colour('yellow').hexadecimal[:7]), f'shape, border and interior of node {name!r} in a loop')
			elif scattered or all(p in on_cycle for p in m.parents(name)):
				c = style.colour.hexadecimal
				mon.check('scheme-colours', c in usable, lambda: f'node {name!r} has colour {c}, which is not in the scheme {sorted(usable)}')
				mon.equal('scheme-colours', shown(style), usable[c], f'style of node {name!r}, which has a colour of the scheme')
				used[c] += 1
		if len(set(used)) == len(list(colours)):
			counts = used.values()
			mon.check('random-even' if scattered else 'even', max(counts) - min(counts) <= 1, lambda: f'colours of the scheme are used {dict(used)} times')

	def judge_edges(self, mon, d, auto_edges):
		base = float(shown(EdgeStyle())['arrowsize'])
		groups = {}
		for key in auto_edges:
			x, edge = d.m.edges[key], d.edge_objects[key]
			s = shown(edge.style)
			start = d.objects[key[0]].style.colour.hexadecimal
			self.judge_shade(mon, key, s['color'], start)
			mon.equal('edge-shade', s['fontcolor'], s['color'], f'text colour of edge {key!r}')
			if isinstance(x.value, Real):
				mon.check('edge-arrow', abs(float(s['arrowsize']) - base * float(x.value)) < 1e-9, lambda: f'edge {key!r} of value {x.value!r} has an arrow of size {s["arrowsize"]}, expected {base * float(x.value)}')
			else:
				mon.equal('edge-arrow', float(s['arrowsize']), base, f'arrow of edge {key!r} of value {x.value!r}')
			group = (key[0], float(x.value) if isinstance(x.value, Real) else 'no number')
			groups.setdefault(group, []).append((key, s))
		for group, members in groups.items():
			for key, s in members:
				mon.equal('edge-own', s, members[0][1], f'style of edge {key!r}, which has the start and value of {members[0][0]!r}')

	def judge_shade(self, mon, key, shade, start):
		a, b = rgb(shade), rgb(start)
		light = lambda c: (max(c) + min(c)) / 2
		mon.check('edge-shade', light(a) <= light(b) + 1.6, lambda: f'edge {key!r} of colour {shade} is lighter than its start {start}')
		if light(b) > 12 and max(b) - min(b) > 40 and max(a) - min(a) > 30:
			h1, h2 = colorsys.rgb_to_hls(*[c / 255 for c in a])[0], colorsys.rgb_to_hls(*[c / 255 for c in b])[0]
			distance = min(abs(h1 - h2), 1 - abs(h1 - h2))
			mon.check('edge-shade', distance < 0.03, lambda: f'edge {key!r} of colour {shade} has another hue than its start {start}')
		elif max(b) == min(b):
			mon.check('edge-shade', max(a) - min(a) <= 6, lambda: f'edge {key!r} has colour {shade}, its start is grey ({start})')
		# a shade, not black
		mon.check('edge-shade', light(a) >= light(b) * 0.5 - 3, lambda: f'edge {key!r} of colour {shade} is no shade of its start {start}')

	def judge_sharing(self, mon, d, auto_nodes, auto_edges):
		owner = {}
		for what, keys, objects in (('node', auto_nodes, d.objects), ('edge', auto_edges, d.edge_objects)):
			for key in keys:
				style = objects[key].style
				mon.check('not-shared', id(style) not in owner, lambda: f'{what} {key!r} shares its style object with {owner[id(style)]!r}')
				owner[id(style)] = (what, key)
		for what, items, objects in (('node', d.m.nodes, d.objects), ('edge', d.m.edges, d.edge_objects)):
			for key, x in items.items():
				if x.style is not None:
					mon.check('not-shared', id(objects[key].style) not in owner, lambda: f'{what} {key!r} shares an automatic style object with {owner[id(objects[key].style)]!r}')

	def independent(self, d, case, mon):
		"""the same start styles with other edges around: the style of an edge that is the same stays the same"""
		if any(case['settings'].get(k) for k in ('node_style', 'edge_style')):
			return
		rng = random.Random(case['seed'])
		m = d.m
		auto = [k for k, x in m.edges.items() if x.style is None]
		kept = [k for k in auto if rng.random() < 0.6]
		if not kept:
			return
		g = Graph(stylist=rng.choice(['pensieve', 'random']))
		for n in m.nodes:
			g.add_node(n, style=d.objects[n].style.copy())
		edges = [(k, m.edges[k].value, True) for k in kept]
		names = list(m.nodes)
		edges += [((rng.choice(names), rng.choice(names), f'other {i}'), rng.choice([None, 5, 0.1, 'x']), False) for i in range(rng.randint(0, 5))]
		rng.shuffle(edges)
		for k, v, _ in edges:
			g.connect(k[0], k[1], id=k[2], value=copy.deepcopy(v), style=rng.choice([None, None, dict(colour='red', arrow_size=2)]) if not _ else None)
		mon.call('render', g.render)
		after = {e.id: shown(e.style) for e in g.edges}
		for k in kept:
			mon.equal('edge-independent', after[k], shown(d.edge_objects[k].style), f'style of edge {k!r} next to other edges')

	def fingerprint(self, case, mon):
		return super().fingerprint(case, mon) if case['nodes'] else None


PROP = C20()
