import json

from ..core import Prop
from .. import gen
from ..env import Graph, parse_indentations

UNITS = ['\t', '\t', ' ', '  ', '   ', '    ', '    ', '        ', '\t\t', ' ' * 7]
WORDS = [
	'a', 'two words', 'trailing ', 'trailing\t', 'a\tb', 'a    b', 'a\t\tb', '- item', '* x', '# head', '"q"', 'x\\', 'ünï', '日本', '0', 'root', '1', 'a  ', '.', '\\n', '{}', '>', 'a: b', 'x' * 100,
	'a\u2003b', 'a\rb', 'ends with unit    ', '|', "it's", 'None', '(?P<name>', '^', '$', 'a\x0bb', 'a\u2028b',
]


class C17(Prop):
	id = 'C17'
	clauses = ('lines', 'levels', 'texts', 'parents', 'edges', 'node-labels', 'root', 'blank', 'rejected-partial', 'rejected-deep', 'arguments-kept')
	rule = (
		'a case is an outline of 0-14 (sometimes 60 or 400) lines over an indentation unit (tabs, 1-8 spaces; declared or detected) with blank lines and texts with inner and '
		'trailing whitespace, then outlines with one line of a partial unit or too deep; the tuples and the graph are compared with the outline; non-trivial: two levels'
	)
	assumptions = ('texts start with a character that is no whitespace; blank lines are empty or have only spaces and tabs',)
	quick = 9000
	thorough = 250000
	shrink_keys = ('outline',)

	def generate(self, rng, index, tier):
		size = rng.choice([60, 60, 60, 400]) if rng.random() < 0.02 else rng.randint(0, 14)
		outline = []
		level = 0
		for i in range(size):
			if rng.random() < 0.15:
				outline.append(None)
			else:
				outline.append([level, rng.choice(WORDS)])
				level = rng.randint(0, level + 1) if rng.random() < 0.75 else level + 1
		if index % 60 == 30:
			# many levels, which are gone up and down several times
			depth = rng.choice([11, 14, 23, 40])
			outline = [[i, f'x{i}'] for i in range(depth)]
			for _ in range(rng.randint(1, 5)):
				top = rng.randrange(max(outline[-1][0] - 9, 0), outline[-1][0] + 1)
				outline += [[i, rng.choice(WORDS)] for i in range(top, min(top + rng.randint(1, 7), 45))]
		return dict(
			outline=outline, unit=rng.choice(UNITS), declared=rng.random() < 0.5, newline=rng.random() < 0.4, bad=rng.choice([None, 'partial', 'deep', 'other']),
			blanks=rng.choice([[''], [''], [' '], ['', '\t', '  ', '     ', ' \t '], ['unit', '', 'unit unit', 'unit ']]),
			position=rng.randrange(20), extra=rng.randrange(1, 8), root=rng.choice(['the root', 'x', '日本', 'a "b"', '0'])
		)

	def execute(self, case, mon):
		unit = case['unit']
		outline = self.normal(case['outline'])
		end = '\n' if case['newline'] else ''
		blanks = [b.replace('unit', unit) for b in case['blanks']]
		lines = [(blanks[i % len(blanks)] if x is None else unit * x[0] + x[1]) + end for i, x in enumerate(outline)]
		kw = {'indent': unit} if case['declared'] else {}
		kept = list(lines)
		result, _ = mon.call('parse_indentations', lambda: list(parse_indentations(lines, **kw)), clause='lines')
		mon.equal('arguments-kept', lines, kept, 'lines')
		mon.equal('lines', [r[0] for r in result], list(range(len(lines))), 'indices')
		expected = self.parents(outline)
		for x, r, parent in zip(outline, result, expected):
			if x is None:
				mon.equal('blank', r[2], '', f'text of the blank line {r[0]}')
			else:
				mon.equal('levels', r[1], x[0], f'level of line {r[0]} of {lines!r}')
				mon.equal('texts', r[2], x[1], f'text of line {r[0]}')
				mon.equal('parents', r[3], parent, f'parent of line {r[0]} of {lines!r}')
		g, warned = mon.call('from_indented_text', Graph.from_indented_text, root=case['root'], lines=lines, clause='edges', **kw)
		mon.equal('edges', len(warned), 0, 'warnings')
		mon.equal('arguments-kept', lines, kept, 'lines')
		shown = {i: x for i, x in enumerate(outline) if x is not None}
		mon.equal('root', g.get_node('root').label, case['root'], 'label of the root')
		for i, x in shown.items():
			mon.equal('node-labels', g.get_node(str(i)).label, x[1], f'label of line {i}')
		wanted = {('root' if expected[i] is None else str(expected[i]), str(i)) for i in shown}
		names = {str(i) for i in shown} | {'root'}
		edges = [(e.start.name, e.end.name) for e in g.edges]
		edges = [e for e in edges if e[0] in names and e[1] in names]
		mon.equal('edges', (set(edges), len(edges)), (wanted, len(wanted)), f'edges of {lines!r}')
		mon.equal('edges', {n.name for n in g.nodes} - names - {str(i) for i in range(len(outline))}, set(), 'nodes that are no lines')
		if any(x is None for x in outline):
			# the same outline without its blank lines has the same nesting
			dense = [line for line, x in zip(lines, outline) if x is not None]
			result, _ = mon.call('parse_indentations', lambda: list(parse_indentations(dense, **kw)), clause='blank')
			mon.equal('blank', [(r[1], r[2]) for r in result], [(x[0], x[1]) for x in shown.values()], f'nesting without the blank lines of {lines!r}')
		self.reject(case, outline, lines, unit, end, kw, mon)
		mon.state((lines, case['declared']))

	@staticmethod
	def normal(outline):
		"""levels never grow by more than one (also after a case was made smaller)"""
		result, last = [], -1
		for x in outline:
			if x is None:
				result.append(None)
			else:
				last = min(x[0], last + 1)
				result.append([last, x[1]])
		return result

	@staticmethod
	def parents(outline):
		result, path = [], []
		for i, x in enumerate(outline):
			if x is None:
				result.append(None)
			else:
				del path[x[0]:]
				result.append(path[-1] if path else None)
				path.append(i)
		return result

	def reject(self, case, outline, lines, unit, end, kw, mon):
		if case['bad'] is None:
			return
		position = min(case['position'], len(lines))
		before = [x for x in outline[:position] if x is not None]
		last = before[-1][0] if before else -1
		indented = any(x[0] > 0 for x in before)
		if not case['declared'] and not indented and case['bad'] != 'deep':
			return   # the bad line would itself define the unit
		if case['bad'] == 'deep':
			if not case['declared'] and not indented:
				if before:
					return
				bad = unit + 'first line'     # nothing to be nested under
			else:
				bad = unit * (last + 1 + case['extra']) + 'too deep'
		elif case['bad'] == 'partial':
			if set(unit) != {' '} or len(unit) < 2:
				return
			extra = 1 + (case['extra'] - 1) % (len(unit) - 1)
			bad = unit * (case['extra'] % (last + 2)) + ' ' * extra + 'partial'
		else:
			other = '\t' if ' ' in unit else ' '
			bad = unit * (case['extra'] % (last + 2)) + other + 'other unit'
		text = lines[:position] + [bad + end] + lines[position:]
		clause = 'rejected-deep' if case['bad'] == 'deep' else 'rejected-partial'
		mon.call('parse_indentations', lambda: list(parse_indentations(text, **kw)), raises=Exception, clause=clause)
		mon.call('from_indented_text', Graph.from_indented_text, root='root', lines=text, raises=Exception, clause=clause, **kw)

	def fingerprint(self, case, mon):
		return json.dumps(case) if any(x is not None and x[0] for x in case['outline']) else None


PROP = C17()
