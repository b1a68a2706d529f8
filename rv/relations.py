"""Histories for the query properties: a topology, then edits with queries in between (stale answers are the target)."""
import json

from . import gen
from .core import Mon, Violation
from .driver import Driver, program, attributes


WEIGHTS = dict(
	add=8, Node=2, conn=30, Edge=2, rmnode=6, rmedge=2, rmany=10, rmedges=2, readd=5, addnode=1, move=1, bad=0, set=0, setedge=0, render=0, copy=3
)


def make_case(rng, index, tier, max_nodes=9, max_edges=18, hostile=(0, 0, 0, 0.4, 'family+int'), edits=(0, 0, 3, 8, 15), kinds=None, ids=True, weights=None, big=0.04, huge=0.002, huge_size=(140, 220), decor=0.5, hubs=400):
	if rng.random() < big:
		max_nodes, max_edges = 28, 45
	if rng.random() < huge:
		(max_nodes, max_edges), edits = huge_size, (0, 1, 3)
	t = gen.topology(rng, max_nodes=max_nodes, max_edges=max_edges, hostile=rng.choice(hostile), ids=ids, kinds=kinds)
	if hubs and index % hubs == hubs // 2:
		t, edits = hub(rng), (0, 1)
	names = t['nodes'] + ['extra1', 'extra2']
	w = dict(WEIGHTS)
	w.update(weights or {})
	ops = program(rng, rng.choice(edits), names[-12:], w, p=0.1, styles=False)
	case = dict(kind=t['kind'], nodes=t['nodes'], edges=t['edges'], ops=ops, every=rng.choice([1, 1, 2, 4]), middle=rng.random() < 0.3)
	if rng.random() < decor:
		decorate(case, rng)
	return case


def hub(rng):
	"""a node with very many children or parents, most of which nothing else is connected with"""
	size = rng.choice([53, 67, 104, 131])
	nodes = ['hub', 'other'] + [f's{i}' for i in range(size)] + ['far']
	rng.shuffle(nodes)
	spokes = [n for n in nodes if n.startswith('s')]
	inward = rng.random() < 0.4
	pairs = [('hub', n) for n in spokes] + [('other', n) for n in rng.sample(spokes[:3] + spokes[-8:], 3)] + [(spokes[-1], 'far'), ('far', spokes[-2])]
	if rng.random() < 0.5:
		pairs += [(n, rng.choice(spokes)) for n in rng.sample(spokes, 3)]
	rng.shuffle(pairs)
	return dict(kind='hub', nodes=nodes, edges=[[e, s, None] if inward else [s, e, None] for s, e in dict.fromkeys(pairs)])


def decorate(case, rng):
	"""labels (few, so that they repeat), values, styles and settings, none of which may matter for relationships"""
	texts = rng.sample(['x', 'y', 'same label', 'Z', case['nodes'][0] if case['nodes'] else 'x'], rng.randint(1, 3))
	p = rng.choice([0.3, 1])
	case['attributes'] = dict(
		node={str(i): attributes(rng, p=p, texts=texts) for i in range(len(case['nodes'])) if rng.random() < 0.7},
		edge={str(i): attributes(rng, True, p=p, texts=texts) for i in range(len(case['edges'])) if rng.random() < 0.5}
	)
	case['settings'] = dict(strict=rng.random() < 0.5, ordering=rng.random() < 0.7, style_overwrite_allowed=rng.random() < 0.5)


def play(case, mon, observe, settings=None):
	"""observe(driver) is called after building, between edits and at the end"""
	d = Driver(mon, settings=dict(case.get('settings') or {}, **(settings or {})))
	a = case.get('attributes') or dict(node={}, edge={})
	for i, n in enumerate(case['nodes']):
		d.op_add(n, a['node'].get(str(i)))
	for i, (s, e, id) in enumerate(case['edges']):
		if s in d.m.nodes and e in d.m.nodes and (s, e, id) not in d.m.edges:
			d.op_conn(s, e, id, a['edge'].get(str(i)), how=i)
			if case['middle'] and i == len(case['edges']) // 2:
				observe(d)
	observe(d)
	count = 0
	for op in case['ops']:
		outcome = d.run(op)
		mon.events[f'{op[0]}:{outcome}'] += 1
		if outcome in ('skip', 'rejected'):
			continue
		count += 1
		if count % case['every'] == 0:
			observe(d)
	if count % case['every']:
		observe(d)
	return d


SHRINK = ('ops', 'edges', 'nodes')


def fingerprint(case):
	if not case['edges']:
		return None
	return json.dumps([case['nodes'], case['edges'], case['ops']], default=str)


def large_graphs():
	"""(what, names, edges, names to ask): more nodes, depth and paths than the workload has"""
	n = [f'{i}' for i in range(1300)]
	yield 'chain', n, [(a, b) for a, b in zip(n, n[1:])], [n[0], n[650], n[-1]]
	n = [f'{i}' for i in range(150)]
	yield 'ring', n, [(a, b) for a, b in zip(n, n[1:] + n[:1])], [n[0], n[99]]
	n = [f'{layer} {side}' for layer in range(50) for side in 'lr']
	yield 'ladder', n, [(f'{layer} {a}', f'{layer + 1} {b}') for layer in range(49) for a in 'lr' for b in 'lr'], [n[0], n[51], n[-1]]
	n = ['source'] + [f'{i}' for i in range(100)] + ['sink']
	yield 'fan', n, [('source', x) for x in n[1:-1]] + [(x, 'sink') for x in n[1:-1]], ['source', '17', '99', 'sink']
	n = [f'{i}' for i in range(120)]
	yield 'two rings', n, [(a, b) for a, b in zip(n[:60], n[1:60] + n[:1])] + [(a, b) for a, b in zip(n[60:], n[61:] + n[60:61])] + [('17', '93')], ['0', '17', '93', '119']
	n = [f'{i}' for i in range(20)]
	yield 'complete', n, [(a, b) for a in n for b in n], ['0', '19']


def probe(prop, report, ask, clause='large'):
	"""ask(driver, names, mon) on the large graphs; a runaway or failing answer is a violation"""
	for what, nodes, edges, names in large_graphs():
		def execute(case, mon):
			d = Driver(Mon())
			for n in nodes:
				d.op_add(n)
			for s, e in edges:
				d.op_conn(s, e)
			mon.event('large:' + what)
			ask(d, names, mon)
		mon = Mon()
		v = prop.run_case(None, mon, execute=execute)
		if what == 'chain' and v is not None and v.clause == 'terminates' and 'steps' in v.message:
			# a slow polynomial answer is not a runaway; the chain only watches the depth
			report['events']['large chain: step limit'] += 1
			continue
		if v is not None:
			raise Violation(v.clause, f'{what} of {len(nodes)} nodes: {v.message}')
		report['clauses'].update(mon.clauses)
		report['events'].update(mon.events)
