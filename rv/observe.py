"""Settings of graphs as JSON-able specifications, and snapshots of everything that can be observed of a graph."""
from . import gen
from .driver import printed, strict_value, make_style
from .env import Scheme, Colour


# converters live at module level, so that graphs with them can be pickled
def shout(text):
	return f'{text}!'


def size_of(text):
	return len(str(text))


def upper(text):
	return str(text).upper()


CONVERTERS = dict(shout=shout, size_of=size_of, upper=upper)
SCHEMES = ['pensieve', 'pensieve2', 'pastel15', 'pastel19', 'set13', 'paired12', 'greys3', 'blues5', 'spectral10']


def settings(rng, p=0.35, global_styles=True, converters=True, strict=True, overwrite=True):
	s = {}

	def some(key, *options):
		if rng.random() < p:
			s[key] = rng.choice(options)
	if strict:
		some('strict', True, False)
		some('ordering', True, False)
	if global_styles:
		if rng.random() < p:
			s['node_style'] = dict(form=rng.choice(['dict', 'object']), args=gen.node_style(rng))
		if rng.random() < p:
			s['edge_style'] = dict(form=rng.choice(['dict', 'object']), args=gen.edge_style(rng))
	if converters:
		some('node_label_converter', *CONVERTERS)
		some('edge_label_converter', *CONVERTERS)
	if rng.random() < p:
		s['colour_scheme'] = rng.choice(SCHEMES + [
			dict(scheme=rng.choice(SCHEMES)), dict(scheme=rng.choice(SCHEMES), colours=rng.sample(['red', 'blue', 'green', 'gold', 'navy', '#123456'], rng.randint(1, 4)))
		])
	some('background_colour', *gen.COLOURS)
	some('font', 'courier', 'times')
	some('direction', 'TB', 'RL', 'BT', 'lr')
	some('stylist', 'random', 'pensieve', 'random', 'pensieve', None)
	some('label', 'Title', None, 'say "x"', '<<b>x</b>>')
	some('label_url', 'http://localhost/', None)
	some('tooltip', 'tip', 'tip "x"')
	some('label_location', 'top', 'bottom')
	some('font_size', 7, 20)
	some('label_colour', 'red', 'black')
	if overwrite:
		some('style_overwrite_allowed', True, False)
	if rng.random() < p:
		s['extra'] = rng.choice([{'splines': 'ortho'}, {'nodesep': 0.5}, {'comment': 'a "b"', 'K': 1}])
	return s


def make_scheme(spec):
	if not isinstance(spec, dict):
		return spec
	if 'colours' in spec:
		return Scheme(colours=[Colour(c) for c in spec['colours']], name=spec['scheme'])
	return Scheme(name=spec['scheme'])


def make_settings(spec):
	kw = dict(spec)
	kw.update(kw.pop('extra', {}))
	for key in ('node_style', 'edge_style'):
		if kw.get(key) is not None:
			kw[key] = make_style(kw[key], key == 'edge_style')
	for key in ('node_label_converter', 'edge_label_converter'):
		if kw.get(key) is not None:
			kw[key] = CONVERTERS[kw[key]]
	if 'colour_scheme' in kw:
		kw['colour_scheme'] = make_scheme(kw['colour_scheme'])
	return kw


def parameters(item):
	result = []
	for key in ('p', 'note', 'q'):
		try:
			result.append((key, strict_value(item[key])))
		except KeyError:
			pass
	return result


def style_state(style):
	"""what a style prints now, and after its colours are reset and changed (its behaviour), without touching it"""
	if style is None:
		return None
	other = style.copy()
	other.colour = '#102030'
	after_colour = other.get_graphviz_str()
	other.reset_colours()
	other.colour = '#405060'
	return printed(style), after_colour, other.get_graphviz_str(), style.invert_colours().get_graphviz_str()


def item_state(item):
	return dict(
		label=item.label, value=strict_value(item.value), parameters=parameters(item), frozen=item.is_frozen,
		style=style_state(item.style), text=item.get_graphviz_str()
	)


def representation(r):
	"""a comparable form of what __graph__() returns"""
	def plain(x):
		if x is None or isinstance(x, (str, int, float)):
			return strict_value(x)
		if hasattr(x, 'get_graphviz_str'):
			return style_state(x)
		if isinstance(x, dict):
			return [(plain(k), plain(v)) for k, v in x.items()]
		if isinstance(x, (list, tuple)):
			return [plain(v) for v in x]
		if isinstance(x, Colour):
			return x.hexadecimal
		if isinstance(x, Scheme):
			return [c.hexadecimal for c in x.colours]
		return strict_value(x)
	return {k: plain(v) for k, v in r.items()}


def snapshot(g, deep=True):
	s = dict(
		nodes=[(n.name, item_state(n)) for n in g.nodes],
		edges=[(e.id, item_state(e)) for e in g.edges],
		inward=[(n.name, [e.id for e in n.inward_edges]) for n in g.nodes],
		outward=[(n.name, [e.id for e in n.outward_edges]) for n in g.nodes],
		source=g.get_graphviz_str(),
	)
	if deep:
		s['sorted'] = [n.name for n in sorted(g.nodes)]
		s['roots'] = [n.name for n in g.roots]
		s['background'] = g.background_colour.hexadecimal
		s['representation'] = representation(g.__graph__())
	return s


def difference(a, b):
	"""the first difference between two snapshots, for messages"""
	for key in a:
		if a[key] != b.get(key):
			if isinstance(a[key], list) and isinstance(b[key], list) and len(a[key]) == len(b[key]):
				for x, y in zip(a[key], b[key]):
					if x != y:
						return f'{key}: {x!r:.500} / {y!r:.500}'
			return f'{key}: {a[key]!r:.500} / {b[key]!r:.500}'
	return None


def belongs(g, mon, clause):
	"""every part of a graph belongs to it"""
	for n in g.nodes:
		mon.check(clause, n.graph is g and n in g, lambda: f'node {n.name!r} does not belong to its graph')
		for e in n.outward_edges:
			mon.check(clause, e.graph is g and e.start is n and e.end is g.nodes_dict[e.end.name], lambda: f'edge {e.id!r} does not connect the nodes of its graph')
		for e in n.inward_edges:
			mon.check(clause, e.graph is g and e.end is n and e.start is g.nodes_dict[e.start.name], lambda: f'edge {e.id!r} does not connect the nodes of its graph')
