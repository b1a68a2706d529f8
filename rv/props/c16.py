import json

from ..core import Prop, Mon
from .. import gen, observe
from ..env import Graph
from ..objects import World, make_spec


class C16(Prop):
	id = 'C16'
	clauses = ('nodes', 'labels', 'links-included', 'only-links', 'no-warnings', 'builds', 'belongs', 'unchanged', 'strict', 'deep')
	rule = (
		'a case is a structure of 1-9 (sometimes 25) objects that report parents and children consistently (trees, diamonds, cycles, self-links), with limits on height and '
		'depth; graphs are built from up to four of the objects; non-trivial: at least one link'
	)
	assumptions = ('unequal objects have unequal hashes (they name the nodes), texts are not empty', 'objects answer the same relatives every time')
	quick = 12000
	thorough = 120000
	shrink_keys = ('links', 'starts')

	def generate(self, rng, index, tier):
		big = rng.random() < 0.03
		spec = make_spec(rng, 25 if big else 9, 45 if big else 16)
		spec['starts'] = [
			[rng.choice(spec['names']), rng.choice([None, None, 0, 1, 2, 3]), rng.choice([None, None, 0, 1, 2, 3])] for _ in range(rng.randint(1, 4))
		]
		texts = [t for t in gen.TEXTS if t]
		spec['texts'] = {n: rng.choice(texts) for n in spec['names'] if rng.random() < 0.3}
		spec['strict'] = rng.choice([None, True, False])
		return spec

	def execute(self, case, mon):
		world = World(case)
		before = world.links()
		for start, height, depth in case['starts']:
			if start not in world.number:
				continue
			obj = world.get(start)
			kw = {k: v for k, v in dict(max_height=height, max_depth=depth, strict=case['strict']).items() if v is not None}
			g, warned = mon.call('from_object', Graph.from_object, obj, clause='builds', **kw)
			mon.equal('no-warnings', [str(w.message) for w in warned], [], f'warnings while building from {start!r}')
			ancestors = set(world.distances(start, world.parents, height))
			descendants = set(world.distances(start, world.children, depth))
			expected = {start} | ancestors | descendants
			name_of = {hash(world.get(n)): n for n in world.names}
			mon.equal('nodes', len(g.nodes), len(expected), f'number of nodes built from {start!r} with {kw}')
			mon.equal('nodes', {name_of.get(n.name, n.name) for n in g.nodes}, expected, f'nodes built from {start!r} with {kw}')
			for n in g.nodes:
				mon.equal('labels', n.label, world.text(name_of[n.name]), f'label of {n!r}')
			links = {(s, e) for s, e in case['links']}
			shown = [(name_of[e.start.name], name_of[e.end.name]) for e in g.edges]
			mon.equal('only-links', len(set(shown)), len(shown), f'edges that are listed more than once in {shown}')
			mon.equal('only-links', set(shown) - links, set(), f'edges that are no links, built from {start!r} with {kw}')
			down, up = {start} | descendants, {start} | ancestors
			wanted = {(s, e) for s, e in links if (s in down and e in down) or (s in up and e in up)}
			mon.equal('links-included', wanted - set(shown), set(), f'links without an edge, built from {start!r} with {kw}')
			mon.equal('strict', g.__graph__()['strict'], bool(case['strict']), 'strictness of the graph')
			observe.belongs(g, mon, 'belongs')
			mon.state((start, height, depth, sorted(links)))
		mon.equal('unchanged', world.links(), before, 'links after building')

	def extra(self, report, tier, seed):
		size = 1200
		world = World(dict(kind='identity', names=[str(i) for i in range(size)], links=[[str(i), str(i + 1)] for i in range(size - 1)]))
		mon = Mon()
		g, _ = mon.call('from_object', Graph.from_object, world.get('600'), clause='deep')
		mon.equal('deep', (len(g.nodes), sum(n.num_outward_edges for n in g.nodes)), (size, size - 1), 'size of a graph built from the middle of a long chain')
		report['clauses'].update(mon.clauses)

	def fingerprint(self, case, mon):
		return json.dumps([case['names'], case['links'], case['starts'], case['kind']]) if case['links'] else None


PROP = C16()
