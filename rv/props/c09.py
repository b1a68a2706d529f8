import copy
import re

from ..core import Prop, Mon, Violation
from .. import env, gen, relations
from .. import tree as T


WILD = [
	'two\nlines', 'ends\n', '\nstarts', '\n', '\n\n', 'a\n\nb', ' ', '  ', ' a', 'a ', '\t', 'a*', '*', '**', '\u2514 a', '\u251c a', '\u2502 a', '\u2502', 'a\r\nb', '\r', '{0}', '%s', '\\1',
	'\u2028', '\x0b', '\x00', '\x1b[1m', 'a\nb*', '\n\u2514 a', '\n\u2502 \u2514 a', 5, 0.5, True, ('a', 'b')
]


class C09(Prop):
	id = 'C09'
	clauses = ('readable', 'edges-once', 'nodes-appear', 'expanded-once', 'marked', 'connector', 'roots', 'subtree', 'same-labels', 'unchanged', 'as-is', 'deep')
	rule = (
		'a case is a topology (cycles, diamonds, parallel edges, self-loops) with labels or names, unique or repeated, edits in between; the text is read back line by line; '
		'non-trivial: at least one edge'
	)
	assumptions = ('the labels of a text that is read back are single lines, do not start with tree characters and do not end with an asterisk; other labels are compared with the same tree with such labels',)
	quick = 5000
	thorough = 200000
	shrink_keys = relations.SHRINK

	def generate(self, rng, index, tier):
		case = relations.make_case(rng, index, tier, hostile=(0, 0, 'family+plain'), big=0.02)
		for op in case['ops']:
			for argument in op:
				if isinstance(argument, dict):
					argument.pop('label', None)
		case['labels'] = rng.random() < 0.5
		case['wild'] = [rng.choice(WILD) for _ in range(12)] if rng.random() < 0.3 else []
		case['texts'] = rng.sample(['two words', 'ünïcödé', 'a\\nb', '"q"', '* star', 'x' * 50, '日本', '<b>', '0', '-', '-> x', 'a  b', 'dot.', "it's"], rng.randint(0, 8))
		return case

	def execute(self, case, mon):
		relations.play(case, mon, lambda d: self.observe(d, mon, case))

	def observe(self, d, mon, case):
		if case['labels']:
			for i, (name, item) in enumerate(d.m.nodes.items()):
				if i % 3 != 2 and item.label is None:
					text = case['texts'][i] if i < len(case['texts']) else f'label {i} of {name}'
					if all(text not in (x.label, n) for n, x in d.m.nodes.items()):
						d.objects[name].label = text
						item.label = text
		g, m = d.g, d.m
		labels = {str(x.label or n): n for n, x in m.nodes.items()}
		if len(labels) != len(m.nodes):
			return self.same_labels(mon, d)
		text, _ = mon.call('get_tree_str', g.get_tree_str, clause='readable')
		roots = [x.name for x in g.roots]
		self.judge(mon, m, text, labels, roots, list(m.nodes))
		again, _ = mon.call('get_tree_str', g.get_tree_str, clause='readable')
		mon.equal('unchanged', again, text, 'the tree asked for again')
		for name in list(m.nodes)[:4]:
			part, _ = mon.call('get_tree_str', d.objects[name].get_tree_str, clause='readable')
			self.judge(mon, m, part, labels, [name], [name] + list(m.distances(name)), clause='subtree')
		mon.equal('unchanged', [n.name for n in g.nodes], list(m.nodes), 'nodes after the query')
		mon.equal('unchanged', set(e.id for e in g.edges), set(m.edges), 'edges after the query')
		self.as_is(d, mon, case)
		mon.state(m.shape())

	def as_is(self, d, mon, case):
		"""the same tree with other labels has these in the same places, whatever they are"""
		if not case['wild']:
			return
		h = copy.deepcopy(d.g)
		nodes = h.nodes
		labels = [str(case['wild'][i % len(case['wild'])]) for i in range(len(nodes))]
		texts = []
		for put in (lambda i: f'<{i}>', lambda i: case['wild'][i % len(case['wild'])]):
			for i, x in enumerate(nodes):
				x.label = put(i)
			texts.append([mon.call('get_tree_str', x.get_tree_str, clause='readable')[0] for x in [h] + nodes[:3]])
		for plain, text in zip(*texts):
			expected = re.sub('<([0-9]+)>', lambda found: labels[int(found[1])], plain)
			mon.equal('as-is', text, expected, f'the tree with other labels than in\n{plain}')

	def same_labels(self, mon, d):
		"""nodes cannot be told apart by their labels: compares every line with what a walk over the recorded edges gives"""
		g, m = d.g, d.m
		label = lambda name: str(m.nodes[name].label or name)
		for given, names in [(g, [x.name for x in g.roots])] + [(d.objects[n], [n]) for n in list(m.nodes)[:3]]:
			expected, expanded = [], set()
			stack = [(0, None, n) for n in reversed(names)]
			while stack:
				depth, last, name = stack.pop()
				children = m.children(name)
				expected.append((depth, last, label(name) + ('*' if name in expanded else '')))
				if children and name not in expanded:
					expanded.add(name)
					stack += [(depth + 1, i + 1 == len(children), c) for i, c in reversed(list(enumerate(children)))]
			text, _ = mon.call('get_tree_str', given.get_tree_str, clause='readable')
			try:
				T.parse(text)
				lines = [T.parse_line(line) for line in text.split('\n') if line]
			except T.TreeError as e:
				raise Violation('readable', f'{e}\n{text}')
			mon.equal('same-labels', [(depth, last, x) for depth, last, _, x in lines], expected, f'lines of\n{text}')
		mon.state(m.shape())

	def judge(self, mon, m, text, labels, roots, nodes, clause=None):
		"""nodes: those the text has to show"""
		try:
			items = T.parse(text)
		except T.TreeError as e:
			raise Violation('readable', f'{e}\n{text}')
		mon.check('readable', True)
		appearances = {}
		for parent, x in T.walk(items):
			label = x['label']
			x['star'] = label not in labels and label.endswith('*')
			if x['star']:
				label = label[:-1]
			mon.check('readable', label in labels, lambda: f'line {x["line"]!r} is no node\n{text}')
			x['name'] = labels[label]
			appearances.setdefault(x['name'], []).append(x)
		mon.equal(clause or 'roots', [x['name'] for x in items], roots, f'root lines of\n{text}')
		mon.equal(clause or 'nodes-appear', set(appearances), set(nodes), f'nodes shown in\n{text}')
		shown = 0
		for name, lines in appearances.items():
			children = m.children(name)
			expanded = [x for x in lines if x['children']]
			shown += len(children)
			if children:
				mon.equal(clause or 'expanded-once', len(expanded), 1, f'expansions of {name!r} in\n{text}')
				mon.check(clause or 'marked', lines[0] is expanded[0], lambda: f'another appearance of {name!r} than the first is expanded in\n{text}')
				mon.equal(clause or 'edges-once', [c['name'] for c in expanded[0]['children']], children, f'children of {name!r} in\n{text}')
				mon.equal(clause or 'marked', [x['star'] for x in lines], [not x['children'] for x in lines], f'marks of {name!r} in\n{text}')
			else:
				mon.equal(clause or 'expanded-once', len(expanded), 0, f'expansions of the childless {name!r} in\n{text}')
				mon.check(clause or 'marked', not lines[0]['star'], lambda: f'first appearance of {name!r} is marked in\n{text}')
			for x in lines:
				for i, c in enumerate(x['children']):
					mon.equal(clause or 'connector', c['last'], i + 1 == len(x['children']), f'connector of {c["line"]!r} in\n{text}')
		mon.equal(clause or 'edges-once', sum(len(x['children']) for _, x in T.walk(items)), shown, f'child lines of\n{text}')

	def extra(self, report, tier, seed):
		mon = Mon()
		g = env.Graph()
		size = 1500
		for i in range(size):
			g.add_node(str(i))
			if i:
				g.connect(str(i - 1), str(i))
		text, _ = mon.call('get_tree_str', g.nodes[0].get_tree_str, clause='deep')
		mon.equal('deep', [x['label'] for _, x in T.walk(T.parse(text))], [str(i) for i in range(size)], 'tree of a long chain')
		report['clauses'].update(mon.clauses)

	def fingerprint(self, case, mon):
		return relations.fingerprint(case)


PROP = C09()
