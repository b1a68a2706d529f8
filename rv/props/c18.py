import re
from collections import Counter

from ..core import Prop, Violation
from .. import dot, gen
from ..driver import Driver, attributes, program
from ..env import Colour

CONVERTERS = {
	'upper': lambda x: str(x).upper(),
	'reverse': lambda x: str(x)[::-1],
	'quote': lambda x: f'"{x}"',
	'slash': lambda x: f'{x}\\',
	'length': lambda x: len(str(x)),
	'constant': lambda x: 'same',
	'none-safe': lambda x: f'{x}]; evil -> evil [label="',
}
LONE_BREAK = re.compile(r'(?:^|["\\])(?:\r?\n|\r)(?=$|["\\])')


def readable(text):
	"""Graphviz 2.43 itself drops a line break that is alone between the quotes (or escapes) of a text"""
	return not LONE_BREAK.search(str(text)) and '\x00' not in str(text)


TEXTS = [t for t in gen.TEXTS if readable(t) and readable(t.upper()) and readable(t[::-1])]
TITLES = [None, 'Title', 'Two words', 'say "hi"', 'back\\', 'a\nb', '<<b>bold</b>>', '日本', '; } x', '\\l', 'a\\"b', 'x]', '<', '>', '']
EXTRA = [
	{}, {}, {}, {'splines': 'ortho'}, {'nodesep': 0.5}, {'nodesep': 1e-07}, {'ranksep': 2}, {'ranksep': 2.5e-05}, {'comment': 'say "x"'}, {'comment': 'end\\'}, {'margin': '0.1,0.2', 'compound': 'true'}, {'K': 1},
	{'comment': 'a\nb', 'nodesep': 1},
]
MORE = dict(compound=[False, True], rotate=[0, 90], searchsize=[0, 30], remincross=[False, True], mclimit=[0.5, 0.0, 2], samplepoints=[8, 1], labeljust=['l', 'r', ''], id=['', '0', 'x y'], quantum=[0, 0.0])
TITLE = dict(font=['courier', 'times new roman'], font_size=[7, 20, 12.5], label_colour=['red', 'black', '#123456'])


def hostile_case(rng, max_nodes=7, max_edges=14):
	t = gen.topology(rng, **gen.sizes(rng, max_nodes, max_edges, big=0.03), hostile=rng.choice([0, 0.5, 1, 'family+plain']))
	names = [n for n in t['nodes'] if readable(n)]
	edges = [e for e in t['edges'] if e[0] in names and e[1] in names]
	node = {repr(n): clean(attributes(rng, p=rng.choice([0.2, 0.6]), styles=rng.random() < 0.4, texts=TEXTS)) for n in names}
	edge = {str(i): clean(attributes(rng, True, p=rng.choice([0.2, 0.6]), styles=rng.random() < 0.4, texts=TEXTS)) for i in range(len(edges))}
	for a in list(node.values()) + list(edge.values()):
		if rng.random() < 0.2:
			a['tooltip'] = rng.choice(TEXTS)
	return dict(kind=t['kind'], nodes=names, edges=edges, node=node, edge=edge)


def clean(a):
	if isinstance(a.get('value'), str) and not readable(a['value']):
		a['value'] = 'v'
	return a


class C18(Prop):
	id = 'C18'
	clauses = (
		'accepted', 'nodes', 'edges', 'labels', 'tooltips', 'distinct', 'strict', 'direction', 'size', 'title', 'background', 'extra', 'graphviz-nodes', 'graphviz-edges', 'nothing-else'
	)
	rule = (
		'a case is a graph with hostile names, labels, values and tooltips, converters, titles, directions, sizes and extra attributes; its source is read back by an own reader of '
		'the DOT grammar and by the installed Graphviz and both are compared with the model; non-trivial: at least one node'
	)
	assumptions = (
		'texts without NUL and without a line break that stands alone between quotes or backslashes (Graphviz 2.43 itself drops it)',
		'Graphviz 2.43 as installed is the reader; fonts, label colours and HTML titles are given by the user in the form Graphviz wants',
	)
	quick = 2400
	thorough = 60000
	shrink_keys = ('ops', 'edges', 'nodes')

	def generate(self, rng, index, tier):
		case = hostile_case(rng)
		case['ops'] = [
			op for op in program(rng, rng.choice([0, 0, 4]), case['nodes'] + ['extra'], dict(bad=0, Node=2, move=1), p=0.3, styles=False)
			if all(readable(v) for a in op if isinstance(a, dict) for v in a.values() if isinstance(v, str))
		]
		settings = {}
		if rng.random() < 0.5:
			settings['strict'] = rng.random() < 0.6
		if rng.random() < 0.4:
			settings['ordering'] = rng.random() < 0.5
		if rng.random() < 0.5:
			settings['direction'] = rng.choice(['LR', 'TB', 'BT', 'RL', 'lr', 'tb', 'Rl'])
		if rng.random() < 0.5:
			settings['label'] = rng.choice(TITLES)
		if rng.random() < 0.2:
			settings['label_url'] = rng.choice([None, 'http://x/?a="b"', 'http://x/\\', 'http://x/a&b;c'])
		if rng.random() < 0.3:
			settings['tooltip'] = rng.choice(TEXTS)
		if rng.random() < 0.3:
			settings['label_location'] = rng.choice(['top', 'bottom', 't', 'b'])
		if rng.random() < 0.3:
			settings['background_colour'] = rng.choice(gen.COLOURS)
		for key, options in TITLE.items():
			if rng.random() < 0.15:
				settings[key] = rng.choice(options)
		settings.update(rng.choice(EXTRA))
		for key, options in MORE.items():
			if rng.random() < 0.05:
				settings[key] = rng.choice(options)
		case['settings'] = settings
		case['node_converter'] = rng.choice([None, None, None] + list(CONVERTERS))
		case['edge_converter'] = rng.choice([None, None, None] + list(CONVERTERS))
		ask = {}
		if rng.random() < 0.4:
			ask['direction'] = rng.choice(['LR', 'TB', 'BT', 'RL', 'tb', 'rl', None])
		for key in ('height', 'width'):
			if rng.random() < 0.25:
				ask[key] = rng.choice([1, 5, 7.5, 10, 0.5, 100])
		if rng.random() < 0.3:
			ask['pad'] = rng.choice([0, 0.5, 2, None])
		case['ask'] = ask
		case['render'] = rng.random() < 0.4
		case['relabel'] = rng.random() < 0.25
		return case

	def execute(self, case, mon):
		settings = dict(case['settings'])
		for key in ('node', 'edge'):
			if case[key + '_converter'] is not None:
				settings[key + '_label_converter'] = CONVERTERS[case[key + '_converter']]
		d = Driver(mon, settings=settings)
		for n in case['nodes']:
			d.op_add(n, case['node'].get(repr(n)))
		for i, (s, e, id) in enumerate(case['edges']):
			if s in d.m.nodes and e in d.m.nodes:
				d.op_conn(s, e, id, case['edge'].get(str(i)), how=i)
		for op in case['ops']:
			d.run(op)
		sources = []
		text, _ = mon.call('get_graphviz_str', d.g.get_graphviz_str, clause='accepted', **case['ask'])
		self.judge(d, case, text, mon, case['ask'])
		sources.append(text)
		if case['render']:
			source, _ = mon.call('render', d.g.render, clause='accepted', **case['ask'])
			self.judge(d, case, source.source, mon, case['ask'])
			sources.append(source.source)
		if case['relabel']:
			# other texts of the same length
			for items, objects in ((d.m.nodes, d.objects), (d.m.edges, d.edge_objects)):
				for key, x in items.items():
					if isinstance(x.label, str) and readable(x.label[::-1]):
						x.label = objects[key].label = x.label[::-1]
			text, _ = mon.call('get_graphviz_str', d.g.get_graphviz_str, clause='accepted', **case['ask'])
			self.judge(d, case, text, mon, case['ask'])
			sources.append(text)
		try:
			drawings = dot.graphviz(sources)
		except dot.DotError as e:
			raise Violation('accepted', f'{e}\n{sources}')
		mon.equal('accepted', len(drawings), len(sources), f'number of graphs in {sources!r}')
		for text, drawing in zip(sources, drawings):
			mon.event('graphviz', len(drawing.nodes), len(drawing.edges))
			self.judge_graphviz(case, text, drawing, mon)
		mon.state((d.m.shape(), case['settings']))

	def node_label(self, case, name, item):
		label = str(item.label) if item.label else str(name)
		return CONVERTERS[case['node_converter']](label) if case['node_converter'] else label

	def edge_label(self, case, item):
		if item.label is None:
			return item.value
		return CONVERTERS[case['edge_converter']](item.label) if case['edge_converter'] else item.label

	def judge(self, d, case, text, mon, ask):
		try:
			drawing = dot.parse(text)
		except dot.DotError as e:
			raise Violation('accepted', f'{e} in\n{text}')
		mon.event('source', len(text))
		m = d.m
		names = list(m.nodes)
		mon.equal('nodes', len(drawing.nodes), len(names), f'node statements in\n{text}')
		ids = {}
		for (shown, a), name in zip(drawing.nodes, names):
			mon.check('nodes', dot.same_text(shown, name), lambda: f'node {name!r} is written as {shown!r}')
			ids[name] = shown
			item = m.nodes[name]
			mon.check('labels', 'label' in a and dot.same_text(a['label'], self.node_label(case, name, item)), lambda: f'node {name!r} has label {a.get("label")!r}, expected {self.node_label(case, name, item)!r}')
			self.judge_tooltip(mon, f'node {name!r}', a, item)
		mon.equal('distinct', len(set(ids.values())), len(names), f'different node names in {list(ids.values())}')
		expected = {}
		for key, item in m.edges.items():
			expected.setdefault((ids[key[0]], ids[key[1]]), []).append((key, item))
		found = {}
		for s, e, a in drawing.edges:
			found.setdefault((s, e), []).append(a)
		mon.equal('edges', {k: len(v) for k, v in found.items()}, {k: len(v) for k, v in expected.items()}, f'edge statements in\n{text}')
		for pair, items in expected.items():
			# parallel edges come in the order in which they were connected
			for a, (key, item) in zip(found[pair], items):
				label = self.edge_label(case, item)
				if label is None:
					mon.check('labels', 'label' not in a, lambda: f'edge {key!r} has label {a.get("label")!r}, expected none')
				else:
					mon.check('labels', 'label' in a and dot.same_text(a['label'], label), lambda: f'edge {key!r} has label {a.get("label")!r}, expected {label!r}')
				self.judge_tooltip(mon, f'edge {key!r}', a, item)
		allowed_node = {'label', 'tooltip', 'color', 'fillcolor', 'fontname', 'fontcolor', 'fontsize', 'opacity', 'shape', 'style'}
		allowed_edge = {'label', 'tooltip', 'color', 'fontname', 'fontcolor', 'fontsize', 'arrowsize', 'lblstyle', 'penwidth'}
		mon.equal('nothing-else', {k for _, a in drawing.nodes for k in a} - allowed_node, set(), 'unknown attributes of nodes')
		mon.equal('nothing-else', {k for _, _, a in drawing.edges for k in a} - allowed_edge, set(), 'unknown attributes of edges')
		mon.equal('nothing-else', drawing.defaults, [], 'default attributes')
		self.judge_header(case, drawing, mon, ask)

	def judge_tooltip(self, mon, what, a, item):
		if item.tooltip is None:
			mon.check('tooltips', 'tooltip' not in a, lambda: f'{what} has tooltip {a["tooltip"]!r}, expected none')
		else:
			mon.check('tooltips', 'tooltip' in a and dot.same_text(a['tooltip'], item.tooltip), lambda: f'{what} has tooltip {a.get("tooltip")!r}, expected {item.tooltip!r}')

	def judge_header(self, case, drawing, mon, ask):
		settings, a = case['settings'], drawing.attributes
		mon.equal('strict', drawing.strict, settings.get('strict', False), 'strictness of the source')
		direction = (ask.get('direction') or settings.get('direction', 'LR')).upper()
		mon.equal('direction', str(a.get('rankdir', 'TB')).upper(), direction, 'direction')
		height, width = ask.get('height'), ask.get('width')
		if height is None and width is None:
			mon.check('size', 'size' not in a, lambda: f'size {a.get("size")!r} was not asked for')
		else:
			numbers = [float(x) for x in re.findall(r'[0-9.]+', str(a.get('size', '')))]
			expected = [float(x) for x in (width, height) if x is not None]
			mon.equal('size', numbers, expected, 'size (width, height)')
		title = settings.get('label', '\nPowered by Abstract')
		if title is None:
			mon.check('title', 'label' not in a, lambda: f'title {a.get("label")!r}, expected none')
		elif title.startswith('<') and title.endswith('>') and len(title) > 1:
			mon.check('title', isinstance(a.get('label'), dot.Html) and a['label'] == title[1:-1], lambda: f'title {a.get("label")!r}, expected {title!r}')
		elif len(title) > 1:
			mon.check('title', dot.same_text(a.get('label'), title), lambda: f'title {a.get("label")!r}, expected {title!r}')
		if title:
			location = settings.get('label_location', 'bottom')
			mon.equal('title', str(a.get('labelloc'))[:1], location[0], 'location of the title')
		if settings.get('label_url') is not None and title is not None:
			mon.check('extra', dot.same_text(a.get('href'), settings['label_url']), lambda: f'link {a.get("href")!r}, expected {settings["label_url"]!r}')
		if settings.get('tooltip') is not None:
			mon.check('tooltips', dot.same_text(a.get('tooltip'), settings['tooltip']), lambda: f'tooltip of the graph {a.get("tooltip")!r}, expected {settings["tooltip"]!r}')
		background = Colour(settings.get('background_colour', '#FAFAFA')).hexadecimal
		mon.equal('background', str(a.get('bgcolor')), background, 'background')
		for key, attribute in (('font', 'fontname'), ('font_size', 'fontsize'), ('label_colour', 'fontcolor')):
			if key in settings and title is not None:
				mon.equal('title', str(a.get(attribute)), str(settings[key]), f'{key} of the title')
		for key in ('splines', 'nodesep', 'ranksep', 'comment', 'margin', 'compound', 'K', *MORE):
			if key in settings:
				mon.check('extra', key in a and dot.same_text(a[key], settings[key]), lambda: f'extra attribute {key}: {a.get(key)!r}, expected {settings[key]!r}')
		if 'pad' in ask and ask['pad'] is not None:
			mon.equal('extra', float(a.get('pad', 'nan')), float(ask['pad']), 'pad')

	def judge_graphviz(self, case, text, drawing, mon):
		"""what Graphviz itself understood agrees with what the own reader (judged against the model) understood"""
		def node(name):
			# names that start with % are renamed by Graphviz
			return '%' if name.startswith('%') else str(name)

		def attributes(a):
			return str(a.get('label', '')), str(a.get('tooltip', ''))
		own = dot.parse(text)
		mon.equal('strict', drawing.strict, case['settings'].get('strict', False), 'strictness read by Graphviz')
		mon.equal('graphviz-nodes', sorted((node(n),) + attributes(a) for n, a in drawing.nodes), sorted((node(n),) + attributes(a) for n, a in own.nodes), 'nodes read by Graphviz')
		pairs = Counter((node(s), node(e)) for s, e, _ in own.edges)
		if drawing.strict:
			pairs = Counter((node(s), node(e)) for s, e in {(s, e) for s, e, _ in own.edges})
		mon.equal('graphviz-edges', Counter((node(s), node(e)) for s, e, _ in drawing.edges), pairs, 'edges read by Graphviz')
		if not drawing.strict:
			mon.equal(
				'graphviz-edges', sorted((node(s), node(e)) + attributes(a) for s, e, a in drawing.edges),
				sorted((node(s), node(e)) + attributes(a) for s, e, a in own.edges), 'edge labels read by Graphviz'
			)

	def fingerprint(self, case, mon):
		return super().fingerprint(case, mon) if case['nodes'] else None


PROP = C18()
