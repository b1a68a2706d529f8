from ..core import Prop
from .. import relations


class C04(Prop):
	id = 'C04'
	clauses = ('ancestors', 'descendants', 'agree', 'converse', 'unchanged', 'large')
	rule = 'a case is a topology (cycles, diamonds, lollipops, parallel edges, up to 28 nodes) followed by 0-15 edits with ancestors and descendants of every node in between; non-trivial: at least one edge'
	quick = 4000
	thorough = 200000
	shrink_keys = relations.SHRINK

	def generate(self, rng, index, tier):
		return relations.make_case(rng, index, tier)

	def execute(self, case, mon):
		relations.play(case, mon, lambda d: self.observe(d, mon))

	def observe(self, d, mon):
		g, m = d.g, d.m
		forward, backward = m.reach(True), m.reach(False)
		observed = {}
		for name in m.nodes:
			node = d.objects[name]
			for what, expected, by_node, getter in (
				('ancestors', set(backward[name]), node.ancestors, g.get_ancestors),
				('descendants', set(forward[name]) - {name}, node.descendants, g.get_descendants),
			):
				mon.event('query:' + what, name)
				for answer in (by_node, getter(node, distance=False), getter(name, distance=False)):
					got = [x.name for x in answer]
					mon.equal(what, sorted(got, key=repr), sorted(expected, key=repr), f'{what} of {name!r}')
					mon.check('agree', all(d.objects[x.name] is x for x in answer), lambda: f'{what} of {name!r} are not nodes of the graph')
					mon.equal('agree', got, [x.name for x in by_node], f'{what} of {name!r} asked in different ways')
				observed[what, name] = set(x.name for x in by_node)
				by_node.clear()
			mon.equal('agree', node.num_descendants, len(observed['descendants', name]), f'num_descendants of {name!r}')
		for a in m.nodes:
			for b in m.nodes:
				if a != b:
					mon.equal('converse', a in observed['ancestors', b], b in observed['descendants', a], f'{a!r} ancestor of {b!r}')
		mon.equal('unchanged', [n.name for n in g.nodes], list(m.nodes), 'nodes after the queries')
		for name in m.nodes:
			mon.equal('unchanged', [e.id for e in d.objects[name].outward_edges], m.outward(name), f'edges of {name!r} after the queries')
		mon.state(m.shape())

	def extra(self, report, tier, seed):
		def ask(d, names, mon):
			for name in names:
				for what, forward, query in (('ancestors', False, d.g.get_ancestors), ('descendants', True, d.g.get_descendants)):
					expected = set(d.m.distances(name, forward)) - ({name} if forward else set())
					answer, _ = mon.call(what, query, name, distance=False, clause='large')
					mon.equal('large', sorted(x.name for x in answer), sorted(expected), f'{what} of {name!r}')
		relations.probe(self, report, ask)

	def fingerprint(self, case, mon):
		return relations.fingerprint(case)


PROP = C04()
