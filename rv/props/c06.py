import json

from ..core import Prop
from .. import env
from ..objects import World, make_spec


class C06(Prop):
	id = 'C06'
	clauses = ('found', 'once', 'shortest', 'unchanged', 'deep')
	rule = (
		'a case is a structure of 1-9 (sometimes 30) objects with identity or value equality (fresh equal objects at every answer, also unhashable ones), lists or tuples, cycles, '
		'diamonds, repeated links, with limits 0, 1, 2, 3, 5, none; every object is a starting point; non-trivial: at least one link'
	)
	assumptions = ('objects answer the same relatives every time and equality is an equivalence',)
	quick = 24000
	thorough = 150000
	shrink_keys = ('links', 'limits')

	def generate(self, rng, index, tier):
		big = rng.random() < 0.03
		spec = make_spec(rng, 30 if big else 9, 60 if big else 20)
		if rng.random() < 0.1:
			spec['kind'] = 'unhashable'
		limits = [None, rng.choice([0, 1, 2, 3, 5]), rng.choice([1, 2, 3]), rng.choice([2, 4, 50])]
		return dict(spec, limits=limits)

	def execute(self, case, mon):
		for what, function, limit_name in (('ancestors', env.get_ancestors, 'max_height'), ('descendants', env.get_descendants, 'max_depth')):
			world = World(case)
			neighbours = world.parents if what == 'ancestors' else world.children
			before = world.links()
			for name in case['names']:
				for limit in case['limits']:
					expected = world.distances(name, neighbours, limit)
					kw = {} if limit is None else {limit_name: limit}
					mon.event('traverse:' + what, name, limit)
					found, _ = mon.call(what, function, world.get(name), distance=False, clause='found', **kw)
					names = [x.name for x in found]
					mon.equal('once', len(set(names)), len(names), f'{what} of {name!r} within {limit}: {names}')
					mon.equal('found', set(names), set(expected), f'{what} of {name!r} within {limit}')
					grouped, _ = mon.call(what + '-by-distance', function, world.get(name), clause='shortest', **kw)
					mon.check('once', all(len(group) for group in grouped.values()), lambda: f'a distance without {what} of {name!r} within {limit}: {grouped}')
					got = {}
					for d, group in grouped.items():
						for x in group:
							mon.check('once', x.name not in got, lambda: f'{x.name!r} appears twice among the {what} of {name!r}: {grouped}')
							got[x.name] = d
					mon.equal('shortest', got, expected, f'distances of the {what} of {name!r} within {limit}')
			mon.equal('unchanged', world.links(), before, 'links after the traversal')
			mon.state((case['names'], case['links']))

	def extra(self, report, tier, seed):
		from ..core import Mon
		size = 1500
		world = World(dict(kind='identity', names=[str(i) for i in range(size)], links=[[str(i), str(i + 1)] for i in range(size - 1)]))
		mon = Mon()
		found, _ = mon.call('descendants', env.get_descendants, world.get('0'), distance=False, clause='deep')
		mon.equal('deep', len(found), size - 1, 'descendants of the start of a long chain')
		found, _ = mon.call('ancestors', env.get_ancestors, world.get(str(size - 1)), distance=False, clause='deep')
		mon.equal('deep', len(found), size - 1, 'ancestors of the end of a long chain')
		report['clauses'].update(mon.clauses)

	def fingerprint(self, case, mon):
		return json.dumps([case['names'], case['links'], case['kind'], case['limits']]) if case['links'] else None


PROP = C06()
