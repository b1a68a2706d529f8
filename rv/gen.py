"""Seeded generators: names, texts, values, styles, topologies, edit programs. Everything they return is JSON-able."""
import string

from . import values

PLAIN = [c for c in string.ascii_lowercase] + [f'n{i}' for i in range(60)]
HOSTILE_NAMES = [
	'', ' ', 'a b', 'A', 'a', '0', '1', '-1', '1.5', 'node', 'graph', 'edge', 'digraph', 'strict', 'subgraph', 'None', 'a"b', '"',
	'""', 'a\\', '\\', '\\\\', 'a\\"', '\\"', "it's", 'a->b', 'a--b', '{', '}', '{}', '[x]', '[label="x"]', ';', 'a;b', 'a:b', 'a:n', ',',
	'=', '<b>x</b>', '<', '>', '&amp;', '&', '#', '//', '/*', '*/', '%', '$x', '\\N', '\\n', '\\l', '\\G', 'a\nb', '\n', 'a\tb', '\t', 'é', '日本', '🕸',
	'ß', 'x' * 80, '|', 'a|b', '<p>', '}{', 'root', 'true', 'name', '\\\\"', 'a\\\nb', '$', '`', '~', '^', '  ', 'a ', ' a', '__x__', 'label', '[ ]',
	'a" [color="red', '"]; "evil', '"; } digraph H { "', 'tooltip', '+', 'a"', '"a', '\\"a', 'end\\\\', 'end\\\\\\', '\r', 'a\rb', '00', '０',
]
TEXTS = HOSTILE_NAMES + ['label', 'two words', 'Label "quoted"', "O'Neil", 'line one\\nline two', 'left\\l', 'x' * 200, 'ünïcödé', '* star *', '└ ├ │', 'long ' * 220 + 'end', 'y' * 1000 + '"']
LINE_TEXTS = [t for t in TEXTS if not set(t) & set('\n\r\t') and t.strip()]
COLOURS = [
	'red', 'blue', 'green', 'yellow', 'black', 'white', 'grey', '#123456', '#abcdef', '#fff', '#000000', '#808080', 'navy', 'gold', '#7f7f7f', '#010203', '#fefefe'
]
SHAPES = ['box', 'circle', 'ellipse', 'diamond', 'hexagon', 'plaintext']
IDS = [None, None, None, 0, 1, 2, '', 'e', 'x', 'None', '0', '1', 7, 1.0, True, False, -1, -2, 1.5]


def family(rng, size, integers=False):
	"""names that are easily taken for each other: common beginnings and ends, letter case, numbers"""
	kinds = ['prefix', 'suffix', 'case', 'numbers', 'words']
	if integers:
		# plain: no two names are the same text
		kinds += ['integers', 'integers', 'mixed', 'mixed'] if integers != 'plain' else ['integers', 'integers', 'partly']
	kind = rng.choice(kinds)
	if kind == 'prefix':
		start = rng.choice(['node', 'a long common beginning ', 'ancestor-', 'x'])
		return [f'{start}{i}' for i in range(size)]
	if kind == 'suffix':
		return [f'{i}{rng.choice(["a", "b"])} with the same ending' for i in range(size)]
	if kind == 'case':
		words = [w for i in range((size + 2) // 3) for w in (f'ab{i or ""}', f'AB{i or ""}', f'Ab{i or ""}')]
		return words[:size]
	if kind == 'integers':
		start = rng.choice([-2, 0, 1, 8])
		return list(range(start, start + size))
	if kind == 'partly':
		return [i if rng.random() < 0.5 else str(i) for i in range(-1, size - 1)]
	if kind == 'mixed':
		# numbers and their texts, and names with equal hashes (0 and the empty text, -1 and -2)
		names = [x for i in (0, 1, -1, -2, *range(2, size)) for x in ([i, str(i)] if i else [i, '', '0'])]
		return names[:size] if size > 6 else rng.sample(names[:8], size)
	if kind == 'numbers':
		start = rng.choice([0, 1, 8, 97])
		return [str(i) for i in range(start, start + size)]
	return ['a' * (i + 1) for i in range(size)]


def name_pool(rng, size, hostile=0.0):
	pool = []
	if hostile in ('family', 'family+int', 'family+plain'):
		pool = family(rng, size, integers={'family': False, 'family+int': True, 'family+plain': 'plain'}[hostile])
		rng.shuffle(pool)
		return pool
	plain = list(PLAIN)
	rng.shuffle(plain)
	odd = list(HOSTILE_NAMES)
	rng.shuffle(odd)
	while len(pool) < size:
		source = odd if (odd and rng.random() < hostile) else plain
		n = source.pop() if source else f'm{len(pool)}'
		if n not in pool:
			pool.append(n)
	return pool


def value(rng, numeric=False, addable=False):
	numbers = [0, 1, 2, -3, 1.5, 0.0, 10, 0.25]
	if numeric:
		return rng.choice(numbers)
	if addable:
		return rng.choice(numbers)
	if rng.random() < 0.15:
		return values.odd(rng)
	return rng.choice(numbers + ['', 'v', 'text "q"', None, True, False, [], [1, 2], ['a'], {}, {'k': 1}, {'k': [1, {'z': 2}]}])


def node_style(rng):
	s = {}
	for key, options, p in (
		('colour', COLOURS, 0.7), ('fill_colour', COLOURS, 0.3), ('border_colour', COLOURS, 0.3), ('text_colour', COLOURS, 0.3),
		('opacity', [0, 0.25, 0.5, 1, 1.0], 0.3), ('font', ['helvetica', 'courier', 'times new'], 0.3), ('text_size', [6, 8, 12, 20.5], 0.3),
		('shape', SHAPES, 0.5), ('shape_style', ['filled', 'rounded, filled', 'dashed'], 0.3), ('lighter_fill', [True, False], 0.3)
	):
		if rng.random() < p:
			s[key] = rng.choice(options)
	return s


def edge_style(rng):
	s = {}
	for key, options, p in (
		('colour', COLOURS, 0.7), ('text_colour', COLOURS, 0.3), ('opacity', [0, 0.25, 0.5, 1], 0.3), ('font', ['helvetica', 'courier'], 0.3),
		('text_size', [6, 8, 12], 0.3), ('arrow_size', [0, 0.2, 0.5, 1, 2], 0.4), ('label_style', ['below', 'above', 'left'], 0.4), ('line_width', [0, 0.5, 1, 2, 3], 0.4)
	):
		if rng.random() < p:
			s[key] = rng.choice(options)
	return s


def sizes(rng, nodes, edges, big=0.05, factor=5):
	"""limits of a graph that is usually small"""
	return dict(max_nodes=nodes * factor, max_edges=edges * factor) if rng.random() < big else dict(max_nodes=nodes, max_edges=edges)


def topology(rng, max_nodes=9, max_edges=20, hostile=0.0, ids=True, kinds=None):
	"""dict(nodes=[names], edges=[[s, e, id], ...]) over a mix of shapes; order of nodes and edges is shuffled"""
	kind = rng.choice(kinds or [
		'random', 'random', 'random', 'dense', 'dag', 'tree', 'cycle', 'cycles', 'chain', 'diamonds', 'star', 'two-way', 'multi', 'lollipop', 'empty', 'bipartite', 'forest', 'hub', 'isolated'
	])
	n = rng.randint(1, max_nodes)
	if max_nodes > 15 and rng.random() < 0.5:
		n = rng.randint(max_nodes * 2 // 3, max_nodes)
	if kind == 'empty':
		n = rng.randint(0, 3)
	names = name_pool(rng, n, hostile)
	pairs = []
	r = range(n)
	if kind == 'random':
		pairs = [(rng.choice(r), rng.choice(r)) for _ in range(rng.randint(0, max_edges))]
	elif kind == 'dense':
		pairs = [(i, j) for i in r for j in r if rng.random() < 0.5]
	elif kind == 'dag':
		pairs = [(i, j) for i in r for j in r if i < j and rng.random() < 0.4]
	elif kind in ('tree', 'forest'):
		pairs = [(rng.randrange(i), i) for i in range(1, n) if kind == 'tree' or rng.random() < 0.7]
	elif kind == 'cycle':
		pairs = [(i, (i + 1) % n) for i in r]
	elif kind == 'cycles':
		# cycles linked one way, entered from outside and left
		i = 0
		while i < n:
			size = min(rng.randint(1, 4), n - i)
			if size > 1 or rng.random() < 0.4:
				pairs += [(i + k, i + (k + 1) % size) for k in range(size)]
			if i > 0 and rng.random() < 0.8:
				pairs.append((rng.randrange(i), i + rng.randrange(size)))
			i += size
	elif kind == 'chain':
		pairs = [(i, i + 1) for i in range(n - 1)]
	elif kind == 'diamonds':
		i = 0
		while i + 3 < n:
			pairs += [(i, i + 1), (i, i + 2), (i + 1, i + 3), (i + 2, i + 3)]
			if rng.random() < 0.4:
				pairs.append((i, i + 3))
			i += 3
	elif kind == 'star':
		pairs = [(0, i) if rng.random() < 0.5 else (i, 0) for i in range(1, n)]
	elif kind == 'hub':
		outward = rng.choice([0, 0.5, 1])
		hubs = rng.choice([1, 1, 2])
		pairs = [(h, i) if rng.random() < outward else (i, h) for h in range(min(hubs, n)) for i in range(hubs, n)]
	elif kind == 'two-way':
		for _ in range(rng.randint(0, max_edges // 2)):
			i, j = rng.choice(r), rng.choice(r)
			pairs += [(i, j), (j, i)]
	elif kind == 'multi':
		for _ in range(rng.randint(1, 4)):
			pairs += [(rng.choice(r), rng.choice(r))] * rng.randint(1, 4)
	elif kind == 'lollipop':
		m = max(1, n // 2)
		pairs = [(i, i + 1) for i in range(n - 1)] + [(n - 1, n - m)]
	elif kind == 'bipartite':
		pairs = [(i, j) for i in r for j in r if i % 2 == 0 and j % 2 == 1 and rng.random() < 0.6]
	if kind not in ('empty', 'isolated', 'chain', 'tree', 'dag') and rng.random() < 0.25:
		i = rng.randrange(n)
		pairs.append((i, i))
	relabel = list(r)
	if rng.random() < 0.7:
		rng.shuffle(relabel)
	if rng.random() < 0.7:
		rng.shuffle(pairs)
	pairs = pairs[:max_edges * 3]
	seen = set()
	edges = []
	for i, j in pairs:
		s, e = names[relabel[i]], names[relabel[j]]
		id = rng.choice(IDS) if ids and rng.random() < 0.5 else None
		tries = 0
		while (s, e, id) in seen and tries < 6:
			id = rng.choice(IDS) if ids else None
			tries += 1
		if (s, e, id) in seen:
			continue
		# 0 and False, 1 and True, 1 and 1.0 are equal keys: ids above avoid them
		seen.add((s, e, id))
		edges.append([s, e, id])
	return dict(kind=kind, nodes=names, edges=edges)


def override_tables(rng, t, p=0.3):
	"""override tables for a topology, as lists of (key, override); edges are named by start, end and id"""
	some = lambda items: [x for x in items if rng.random() < p]
	return dict(
		node_styles=[[n, node_style(rng)] for n in some(t['nodes'])], node_colours=[[n, rng.choice(COLOURS)] for n in some(t['nodes'])],
		edge_styles=[[e[:3], edge_style(rng)] for e in some(t['edges'])], edge_colours=[[e[:3], rng.choice(COLOURS)] for e in some(t['edges'])]
	)
