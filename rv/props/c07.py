from ..core import Prop
from .. import relations
from ..model import loop_info


class C07(Prop):
	id = 'C07'
	clauses = ('node-in-loop', 'same-loop', 'edge-in-loop', 'loop-nodes', 'unchanged', 'large')
	rule = 'a case is a topology (self-loops, two-way pairs, linked cycles, lollipops, DAGs) with edits in between, asking every node, every pair (names and node objects in all four combinations) and every edge; non-trivial: at least one edge'
	quick = 1200
	thorough = 100000
	shrink_keys = relations.SHRINK

	def generate(self, rng, index, tier):
		return relations.make_case(rng, index, tier, max_nodes=8, kinds=rng.choice([None, ['cycles', 'cycles', 'two-way', 'lollipop', 'random', 'cycle', 'dense']]), big=0.005, huge=0, hubs=0)

	def execute(self, case, mon):
		relations.play(case, mon, lambda d: self.observe(d, mon))

	def observe(self, d, mon):
		g, m = d.g, d.m
		on_cycle, same = loop_info(m)
		for name in m.nodes:
			node = d.objects[name]
			mon.event('query:loop', name)
			for answer in (node.is_in_loop(), g.is_node_in_loop(name), g.is_node_in_loop(node)):
				mon.equal('node-in-loop', answer, name in on_cycle, f'{name!r} is in a loop')
		names = list(m.nodes)
		if len(names) > 9:
			names = names[::3]
		for a in names:
			for b in names:
				x, y = d.objects[a], d.objects[b]
				mon.event('query:same-loop')
				answers = [x.is_in_loop_with(y), x.is_in_loop_with(b), g.are_nodes_in_same_loop(a, b), g.are_nodes_in_same_loop(x, y), g.are_nodes_in_same_loop(a, y), g.are_nodes_in_same_loop(x, b)]
				mon.equal('same-loop', answers, [same(a, b)] * 6, f'{a!r} and {b!r} are in the same loop')
		for (s, e, id), edge in d.edge_objects.items():
			mon.event('query:edge-loop')
			# an edge lies on a cycle exactly when its start can be reached from its end
			mon.equal('edge-in-loop', edge.is_in_loop(), s == e or same(s, e), f'edge {(s, e, id)!r} is in a loop')
		mon.equal('loop-nodes', [x.name for x in g.loop_nodes], [n for n in m.nodes if n in on_cycle], 'loop nodes')
		mon.equal('unchanged', [n.name for n in g.nodes], list(m.nodes), 'nodes after the queries')
		mon.state(m.shape())

	def extra(self, report, tier, seed):
		def ask(d, names, mon):
			reach = {n: d.m.distances(n) for n in names}
			for a in names:
				answer, _ = mon.call('is_in_loop', d.objects[a].is_in_loop, clause='large')
				mon.equal('large', answer, a in reach[a], f'{a!r} is in a loop')
				for b in names:
					answer, _ = mon.call('is_in_loop_with', d.objects[a].is_in_loop_with, b, clause='large')
					mon.equal('large', answer, a in reach[b] and b in reach[a], f'{a!r} and {b!r} are in the same loop')
				for (s, e, _), edge in d.edge_objects.items():
					if s == a:
						answer, _ = mon.call('edge in loop', edge.is_in_loop, clause='large')
						mon.equal('large', answer, a in d.m.distances(e) or a == e, f'edge from {s!r} to {e!r} is in a loop')
						break
		relations.probe(self, report, ask)

	def fingerprint(self, case, mon):
		return relations.fingerprint(case)


PROP = C07()
