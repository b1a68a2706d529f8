from ..core import Prop
from .. import relations


class C05(Prop):
	id = 'C05'
	clauses = ('shortest', 'once', 'complete', 'unchanged', 'large')
	rule = 'a case is a topology with paths of different lengths between the same nodes (diamonds with shortcuts, cycles, lollipops), edits in between, and the distance form of ancestors and descendants of every node; non-trivial: at least one edge'
	quick = 4000
	thorough = 200000
	shrink_keys = relations.SHRINK

	def generate(self, rng, index, tier):
		return relations.make_case(rng, index, tier, kinds=rng.choice([None, ['diamonds', 'random', 'dag', 'lollipop', 'cycles', 'dense', 'two-way', 'multi']]))

	def execute(self, case, mon):
		relations.play(case, mon, lambda d: self.observe(d, mon))

	def observe(self, d, mon):
		g, m = d.g, d.m
		for name in m.nodes:
			node = d.objects[name]
			for what, forward, getter in (('ancestors', False, g.get_ancestors), ('descendants', True, g.get_descendants)):
				expected = m.distances(name, forward)
				if forward:
					expected.pop(name, None)
				for key, kwargs in ((name, {}), (node, dict(distance=True))):
					mon.event('query:' + what, name)
					answer = getter(key, **kwargs)
					mon.check('once', all(answer.values()), lambda: f'a distance without {what} of {name!r}: {answer!r}')
					got = {}
					for distance, group in answer.items():
						for x in group:
							mon.check('once', x.name not in got, lambda: f'{x.name!r} appears twice among the {what} of {name!r}: {answer!r}')
							got[x.name] = distance
							mon.check('once', d.objects[x.name] is x, lambda: f'{x!r} is not a node of the graph')
					mon.equal('shortest', got, expected, f'distances of the {what} of {name!r}')
					# the answer is the caller's: what is done with it must not show in the next one
					for group in answer.values():
						group.clear()
					answer.clear()
				mon.equal('complete', {x.name for x in getter(name, distance=False)}, set(expected), f'{what} of {name!r} in the list form')
		mon.equal('unchanged', [n.name for n in g.nodes], list(m.nodes), 'nodes after the queries')
		mon.state(m.shape())

	def extra(self, report, tier, seed):
		def ask(d, names, mon):
			for name in names:
				for what, forward, query in (('ancestors', False, d.g.get_ancestors), ('descendants', True, d.g.get_descendants)):
					expected = d.m.distances(name, forward)
					if forward:
						expected.pop(name, None)
					answer, _ = mon.call(what, query, name, clause='large')
					got = [(x.name, distance) for distance, group in answer.items() for x in group]
					mon.equal('large', sorted(got), sorted(expected.items()), f'distances of the {what} of {name!r}')
		relations.probe(self, report, ask)

	def fingerprint(self, case, mon):
		return relations.fingerprint(case)


PROP = C05()
