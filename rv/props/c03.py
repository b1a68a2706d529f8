from ..core import Prop
from .. import relations


def distinct(items):
	return list(dict.fromkeys(items))


class C03(Prop):
	id = 'C03'
	clauses = ('parents', 'children', 'siblings', 'spouses', 'roots-and-leaves', 'agree', 'rank', 'unchanged', 'rank-rejects')
	rule = 'a case is a topology (17 shapes, up to 28 nodes, parallel edges and self-loops) followed by 0-15 edits with every family query of every node in between; non-trivial: at least one edge'
	assumptions = ('repeats of a parent or child joined by parallel edges are not constrained (compared as sequences without repeats)',)
	quick = 2000
	thorough = 200000
	shrink_keys = relations.SHRINK

	def generate(self, rng, index, tier):
		return relations.make_case(rng, index, tier, huge_size=(70, 110), hubs=400)

	def execute(self, case, mon):
		relations.play(case, mon, lambda d: self.observe(d, mon))

	def observe(self, d, mon):
		g, m = d.g, d.m
		asked = list(m.nodes)
		if len(asked) > 50:
			# all of them would take minutes
			asked = sorted(asked, key=lambda n: -len(m.children(n)) - len(m.parents(n)))[:6] + asked[::7]
		for name in dict.fromkeys(asked):
			node = d.objects[name]
			names = lambda nodes: [x.name for x in nodes]
			for what, expected, by_node, getter, has, num, node_has in (
				('parents', m.parents(name), node.parents, g.get_parents, g.has_parents, g.num_parents, node.has_parents),
				('children', m.children(name), node.children, g.get_children, g.has_children, g.num_children, node.has_children),
				('siblings', m.siblings(name), node.siblings, g.get_siblings, g.has_siblings, g.num_siblings, None),
				('spouses', m.spouses(name), node.co_parents, g.get_spouses, g.has_spouses, g.num_spouses, None),
			):
				mon.event('query:' + what, name)
				answers = by_node, getter(name), getter(node)
				for answer in answers:
					mon.check('agree', isinstance(answer, list) and all(d.objects.get(x.name) is x for x in answer), lambda: f'{what} of {name!r} are not nodes of the graph: {answer!r}')
					got = names(answer)
					if isinstance(expected, set):
						mon.equal(what, sorted(got, key=repr), sorted(expected, key=repr), f'{what} of {name!r}')
					else:
						mon.equal(what, distinct(got), distinct(expected), f'{what} of {name!r}')
						mon.equal('agree', got, names(answers[0]), f'{what} of {name!r} asked in different ways')
				for key in (name, node):
					mon.equal('agree', has(key), bool(expected), f'has_{what} of {name!r}')
					mon.equal('agree', num(key), len(answers[0]), f'num_{what} of {name!r}')
				if node_has is not None:
					mon.equal('agree', bool(node_has()), bool(expected), f'has_{what} of {name!r} asked of the node')
				# the answers are the caller's: what is done with them must not show anywhere
				for answer in answers:
					answer.clear()
		mon.equal('roots-and-leaves', [x.name for x in g.absolute_roots], m.absolute_roots(), 'absolute roots')
		mon.equal('roots-and-leaves', [x.name for x in g.leaves], m.leaves(), 'leaves')
		order = {n: i for i, n in enumerate(m.nodes)}
		for name in m.nodes:
			children = m.children(name)
			parent = d.objects[name]
			repeated = len(set(children)) != len(children)
			ranks = []
			for c in sorted(set(children), key=order.get):
				ranks.append(d.objects[c].get_child_rank(parent))
				ranks_by_position = len(ranks) - 1
				if not repeated:
					mon.equal('rank', ranks[-1], ranks_by_position, f'rank of {c!r} under {name!r}')
			mon.check('rank', all(a < b for a, b in zip(ranks, ranks[1:])), lambda: f'ranks of the children of {name!r} in the order in which they were added: {ranks}')
			for other in list(m.nodes)[:3]:
				if other not in children:
					mon.call('get_child_rank', d.objects[other].get_child_rank, parent, raises=Exception, clause='rank-rejects')
		mon.equal('unchanged', [n.name for n in g.nodes], list(m.nodes), 'nodes after the queries')
		mon.equal('unchanged', set(e.id for e in g.edges), set(m.edges), 'edges after the queries')
		mon.state(m.shape())

	def fingerprint(self, case, mon):
		return relations.fingerprint(case)


PROP = C03()
