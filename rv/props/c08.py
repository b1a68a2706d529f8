from ..core import Prop
from .. import relations


class C08(Prop):
	id = 'C08'
	clauses = ('covered', 'not-redundant', 'once', 'absolute', 'closed-loops', 'unchanged', 'large')
	rule = 'a case is a topology (closed loops, linked loops, isolated nodes, lollipops) with edits in between; the roots are judged against reachability computed by the model; non-trivial: at least one edge'
	quick = 12000
	thorough = 250000
	shrink_keys = relations.SHRINK

	def generate(self, rng, index, tier):
		return relations.make_case(rng, index, tier, kinds=rng.choice([None, ['cycles', 'cycles', 'two-way', 'lollipop', 'random', 'forest', 'cycle', 'multi']]))

	def execute(self, case, mon):
		relations.play(case, mon, lambda d: self.observe(d, mon))

	def observe(self, d, mon):
		g, m = d.g, d.m
		reach = m.reach()
		roots = g.roots
		mon.event('query:roots', len(roots))
		mon.check('once', all(d.objects.get(x.name) is x for x in roots), 'a root is not a node of the graph')
		names = [x.name for x in roots]
		mon.equal('once', len(set(names)), len(names), f'roots {names}')
		covered = set(names)
		for n in names:
			covered |= set(reach[n])
		mon.equal('covered', set(m.nodes) - covered, set(), f'nodes that roots {names} do not cover')
		for n in names:
			for other in names:
				if n != other:
					mon.check('not-redundant', n not in reach[other], lambda: f'root {n!r} is a descendant of root {other!r}')
		mon.check('not-redundant', True)
		mon.equal('absolute', set(m.absolute_roots()) - set(names), set(), 'nodes without parents that are no roots')
		mon.equal('absolute', [x.name for x in g.absolute_roots], m.absolute_roots(), 'absolute roots')
		# source components of the condensation: groups entered from nowhere else
		groups = set()
		for n in m.nodes:
			group = frozenset({n} | {x for x in reach[n] if n in reach[x]})
			if all(s in group for s, e, _ in m.edges if e in group):
				groups.add(group)
		for group in groups:
			mon.equal('closed-loops', len([n for n in names if n in group]), 1, f'roots inside the closed group {sorted(group, key=repr)}')
		mon.equal('closed-loops', len(names), len(groups), 'number of roots and of groups entered from nowhere')
		mon.equal('unchanged', [n.name for n in g.nodes], list(m.nodes), 'nodes after the query')
		mon.state(m.shape())

	def extra(self, report, tier, seed):
		def ask(d, names, mon):
			roots, _ = mon.call('roots', lambda: d.g.roots, clause='large')
			roots = [x.name for x in roots]
			covered = set(roots).union(*(d.m.distances(n) for n in roots))
			# the ladder is entered at two places, the others at one
			mon.equal('large', (len(roots), covered), (2 if '0 l' in d.m.nodes else 1, set(d.m.nodes)), 'roots and what they cover')
			mon.equal('large', [x.name for x in d.g.absolute_roots], d.m.absolute_roots(), 'absolute roots')
		relations.probe(self, report, ask)

	def fingerprint(self, case, mon):
		return relations.fingerprint(case)


PROP = C08()
