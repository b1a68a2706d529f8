"""
Runs programs of graph operations and prints everything that is drawn, listed or represented, as JSON.
stdin: {"programs": [...], "order": [indices], "noise": seed}; started by C25 in several processes.
"""
import copy
import json
import os
import pickle
import random
import sys
import warnings

if __name__ == '__main__':
	sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.realpath(__file__))))

from rv import observe, values
from rv.core import Mon, SkipCase, Violation
from rv.driver import Driver
from rv.env import Graph, get_ancestors, get_descendants, NodeStyle, EdgeStyle
from rv.objects import World


def noise(seed):
	"""unrelated earlier work: graphs, styles, random numbers, live and dead objects"""
	rng = random.Random(seed)
	kept = []
	for _ in range(rng.randint(0, 12)):
		g = Graph(stylist=rng.choice(['pensieve', 'random']), colour_scheme=rng.choice(observe.SCHEMES))
		for i in range(rng.randint(0, 8)):
			name = f'noise {rng.randrange(20)}'
			if name not in g:
				g.add_node(name, style=rng.choice([None, dict(colour='red')]))
		names = list(g.nodes_dict)
		for _ in range(rng.randint(0, 8)):
			if names:
				g.connect(rng.choice(names), rng.choice(names), if_edge_exists='ignore')
		if rng.random() < 0.6:
			g.render()
		if rng.random() < 0.5:
			kept.append(g.copy())
		kept.append([object() for _ in range(rng.randint(0, 3000))])
	kept += [NodeStyle(colour='blue').copy(), EdgeStyle(colour='red').invert_colours()]
	random.seed(seed)
	for _ in range(rng.randint(0, 50)):
		random.random()
	return kept


def describe(g, key, out):
	out[key + ' nodes'] = [repr(n.name) for n in g.nodes]
	out[key + ' edges'] = [repr(e.id) for e in g.edges]
	out[key + ' edges_dict'] = [repr(k) for k in g.edges_dict]
	out[key + ' source'] = g.get_graphviz_str()
	out[key + ' representation'] = repr(observe.representation(g.__graph__()))


def listings(g, out, key):
	out[key + ' roots'] = [n.name for n in g.roots]
	out[key + ' loops'] = [n.name for n in g.loop_nodes]
	out[key + ' sorted'] = [n.name for n in sorted(g.nodes)]
	out[key + ' tree'] = g.get_tree_str()
	for n in g.nodes[:6]:
		out[f'{key} relatives of {n.name!r}'] = [
			[x.name for x in group] for group in (n.ancestors, n.descendants, n.siblings, n.co_parents, g.get_siblings(n), g.get_spouses(n))
		] + [[(k, [x.name for x in v]) for k, v in f(n).items()] for f in (g.get_ancestors, g.get_descendants)]


def outcome(program):
	out = {}
	mon = Mon()
	kind = program['what']
	with warnings.catch_warnings():
		warnings.simplefilter('ignore')
		if kind == 'random':
			g = Graph.random(**program['arguments'])
		elif kind == 'lists':
			g = Graph.from_lists(program['start'], program['end'], program['labels'])
		elif kind == 'text':
			g = Graph.from_indented_text('the root', program['lines'])
		elif kind == 'object':
			for world in (World(dict(program['spec'], kind=k, small=small)) for k, small in (('identity', False), ('by-name', False), ('by-name', True))):
				start = world.get(world.names[0])
				out[f'traversal {world.kind} {world.small}'] = [
					[x.name for x in f(start, distance=False)] for f in (get_ancestors, get_descendants)
				] + [[(k, [x.name for x in v]) for k, v in f(start, distance=True).items()] for f in (get_ancestors, get_descendants)]
			# its hashes, which name the nodes, are plain numbers
			g = Graph.from_object(start)
		else:
			d = Driver(mon, settings=observe.make_settings(program['settings']))
			d.overwrite = bool(program['settings'].get('style_overwrite_allowed'))
			for n in program['nodes']:
				d.op_add(n, program['node'].get(repr(n)))
			for i, (s, e, id) in enumerate(program['edges']):
				if s in d.m.nodes and e in d.m.nodes:
					d.op_conn(s, e, id, program['edge'].get(str(i)), how=i)
			for op in program['ops']:
				d.run(op)
			g = d.g
		describe(g, 'built', out)
		listings(g, out, 'built')
		others = [g]
		if program.get('other') is not None:
			o = Graph(colour_scheme=program['scheme'])
			for n in program['other']['nodes']:
				o.add_node(n, value=1, label=f'other {n}')
			for s, e, id in program['other']['edges']:
				o.connect(s, e, id=id, value=2, label='other')
			for name, x in (('sum', lambda: g.add(o, add_values_function=lambda a, b: f'{a!r}+{b!r}')), ('sum back', lambda: o.add(g, add_values_function=lambda a, b: f'{a!r}+{b!r}'))):
				h = x()
				describe(h, name, out)
				listings(h, out, name)
				out[name + ' drawn'] = h.render().source
			out['similar'] = g.is_similar_to(o)
		names = list(g.nodes_dict)
		chosen = [n for i, n in enumerate(names) if i % 3 == 0]
		for direction in ('to', 'from', 'to_and_from'):
			for filter_type in ('include', 'exclude'):
				h = g.filter(chosen, direction=direction, filter_type=filter_type)
				describe(h, f'filter {direction} {filter_type}', out)
				others.append(h)
		if program.get('styles'):
			r = g.__graph__()
			r['node_styles'] = {n: {'shape': 'box', 'text_size': 7} for n in names[::2]}
			r['edge_colours'] = {e.id: 'red' for e in g.edges[::2]}
			h = Graph(r, stylist=program['styles'])
			out['overridden'] = h.render().source
		others += [g.copy(), pickle.loads(pickle.dumps(g)), copy.deepcopy(others[-1]), Graph(g.__graph__(), colour_scheme=program['scheme'], stylist=program['stylist'])]
		for i, h in enumerate(others):
			out[f'drawn {i}'] = h.render().source
			out[f'drawn again {i}'] = h.render(direction='TB').source
			describe(h, f'after drawing {i}', out)
		listings(g, out, 'drawn')
	return out


def main():
	job = json.load(sys.stdin)
	kept = noise(job['noise']) if job['noise'] else None
	results = {}
	for i in job['order']:
		try:
			results[i] = outcome(values.decode(job['programs'][i]))
		except (Violation, SkipCase):
			results[i] = None
		except Exception as e:
			results[i] = dict(failed=f'{type(e).__name__}: {e}')
	json.dump(results, sys.stdout)
	return kept


if __name__ == '__main__':
	main()
