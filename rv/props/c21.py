import copy
import pickle
import re

from ..core import Prop
from .. import gen
from ..env import NodeStyle, EdgeStyle, Colour

# style argument -> printed attribute
NODE_KEYS = dict(border_colour='color', fill_colour='fillcolor', font='fontname', text_colour='fontcolor', text_size='fontsize', opacity='opacity', shape='shape', shape_style='style')
EDGE_KEYS = dict(colour='color', font='fontname', text_colour='fontcolor', text_size='fontsize', arrow_size='arrowsize', label_style='lblstyle', line_width='penwidth')
DERIVED = ('fill_colour', 'border_colour', 'text_colour')


def read(style):
	"""printed attributes of a style"""
	text = style.get_graphviz_str()
	pairs = re.findall(r'"([^"]*)"="([^"]*)"', text)
	result = dict(pairs)
	assert len(result) == len(pairs) and ' '.join(f'"{k}"="{v}"' for k, v in pairs) == text, text
	return result


def close(a, b, steps=1):
	"""colours equal up to the rounding of one step (or more) per channel (alpha exact)"""
	if a is None or b is None or len(a) != len(b):
		return a == b
	x, y = [int(a[i:i + 2], 16) for i in range(1, len(a), 2)], [int(b[i:i + 2], 16) for i in range(1, len(b), 2)]
	return all(abs(p - q) <= (steps if i < 3 else 0) for i, (p, q) in enumerate(zip(x, y)))


def complement(hexadecimal):
	return '#' + ''.join(f'{255 - int(hexadecimal[i:i + 2], 16):02x}' for i in (1, 3, 5)) + hexadecimal[7:]


def lightness(hexadecimal):
	channels = [int(hexadecimal[i:i + 2], 16) / 255 for i in (1, 3, 5)]
	return (max(channels) + min(channels)) / 2


def luminance(hexadecimal):
	r, g, b = [int(hexadecimal[i:i + 2], 16) / 255 for i in (1, 3, 5)]
	return 0.2126 * r + 0.7152 * g + 0.0722 * b


class Expected:
	"""what a style should print: every colour is explicit, derived from a main colour, or reset"""
	def __init__(self, edge, args):
		self.edge = edge
		# made by inverting: colours have been rounded
		self.rounded = False
		self.plain = {k: v for k, v in args.items() if k not in ('colour', 'lighter_fill') + DERIVED}
		self.lighter = args.get('lighter_fill', True)
		self.colours = {k: args[k] for k in (('text_colour',) if edge else DERIVED) if args.get(k) is not None}
		self.colour = args.get('colour', '#AAAAAA') or (args.get('text_colour') if edge else (args.get('fill_colour') or args.get('border_colour'))) or '#AAAAAA'
		self.derived = {}
		self.derive()

	def copy(self):
		result = copy.copy(self)
		result.plain, result.colours, result.derived = dict(self.plain), dict(self.colours), dict(self.derived)
		return result

	def inverse(self):
		"""every explicit colour is complemented, and the others are derived from the complement of the main colour"""
		result = self.copy()
		result.rounded = True
		result.colour = complement(Colour(self.colour).hexadecimal)
		result.colours = {k: complement(Colour(v).hexadecimal) for k, v in self.colours.items()}
		result.derived = {}
		result.derive()
		return result

	def missing(self):
		return [k for k in (('text_colour',) if self.edge else DERIVED) if k not in self.colours and k not in self.derived]

	def derive(self):
		"""what is missing is derived from the present main colour"""
		missing = self.missing()
		if self.edge:
			for k in missing:
				self.derived[k] = self.colour
			return
		fresh = read(NodeStyle(colour=self.colour, lighter_fill=self.lighter))
		for k in missing:
			if k != 'text_colour':
				self.derived[k] = fresh[NODE_KEYS[k]]
		if 'text_colour' in missing:
			if 'fill_colour' in self.colours:
				fresh = read(NodeStyle(colour='#123456', fill_colour=self.colours['fill_colour']))
			self.derived['text_colour'] = fresh['fontcolor']

	def set_colour(self, v):
		self.colour = v
		self.derive()

	def reset(self):
		self.colours.clear()
		self.derived.clear()

	def set(self, key, v):
		if key == 'colour':
			self.set_colour(v)
		elif key in DERIVED:
			self.derived.pop(key, None)
			self.colours[key] = v
		elif key == 'lighter_fill':
			self.lighter = v
		else:
			self.plain[key] = v

	def printed(self):
		result = {}
		opacity = self.plain.get('opacity', 1 if self.edge else None)
		keys = EDGE_KEYS if self.edge else NODE_KEYS
		for k, attribute in keys.items():
			if k in self.colours or k in self.derived or (k == 'colour'):
				v = self.colour if k == 'colour' else self.colours.get(k, self.derived.get(k))
				result[attribute] = Colour(v).get_hexadecimal(opacity=opacity)
			elif k in DERIVED:
				if self.edge:
					result[attribute] = Colour(self.colour).get_hexadecimal(opacity=opacity)
			elif k in self.plain and self.plain[k] is not None:
				result[attribute] = str(self.plain[k])
		return result


class C21(Prop):
	id = 'C21'
	clauses = ('prints', 'explicit', 'derived', 'contrast', 'independent', 'inverted', 'restored', 'copy', 'accepts')
	rule = (
		'a case is a node or edge style made from a random subset of arguments, then 2-14 operations (set a colour, reset, complement, copy in three ways, invert) on a growing '
		'family of styles; after each operation every style of the family is printed and compared with its own model; non-trivial: at least one copy or inversion'
	)
	assumptions = (
		'the mixing, lightening and inverting of single colours is done by the third-party package colouration; printed colours may differ by one step per channel after an inversion',
		'the shade derived from a main colour is the one a fresh style prints for it (its direction, lighter or darker, is checked independently)',
	)
	quick = 12000
	thorough = 400000

	def generate(self, rng, index, tier):
		edge = rng.random() < 0.4
		ops = []
		style = gen.edge_style if edge else gen.node_style
		for _ in range(rng.randint(2, 14)):
			which = rng.randrange(8)
			kind = rng.choice(['colour', 'reset', 'set', 'set', 'complement', 'copy', 'copy', 'invert', 'invert2', 'reset-colour'])
			if kind in ('colour', 'reset-colour'):
				ops.append([kind, which, rng.choice(gen.COLOURS)])
			elif kind == 'set':
				ops.append([kind, which, rng.choice(['text_colour'] if edge else list(DERIVED)), rng.choice(gen.COLOURS)])
			elif kind == 'complement':
				args = style(rng)
				args.pop('lighter_fill', None)
				ops.append([kind, which, args])
			elif kind == 'copy':
				ops.append([kind, which, rng.choice(['copy', 'deepcopy', 'pickle', 'copy.copy'])])
			else:
				ops.append([kind, which])
		args = style(rng)
		if rng.random() < 0.1:
			args['colour'] = None
		return dict(edge=edge, args=args, ops=ops)

	def execute(self, case, mon):
		edge = case['edge']
		cls = EdgeStyle if edge else NodeStyle
		style, _ = mon.call('new', cls, **case['args'])
		family = [(style, Expected(edge, case['args']))]
		self.relations(mon, style, case['args'], edge)
		self.compare(mon, family, 'prints', 'a new style')
		for op in case['ops']:
			style, expected = family[op[1] % len(family)]
			if op[0] == 'colour':
				mon.call('colour=', setattr, style, 'colour', op[2])
				expected.set_colour(op[2])
			elif op[0] == 'reset-colour':
				mon.call('reset', style.reset_colours)
				mon.call('colour=', setattr, style, 'colour', op[2])
				expected.reset()
				expected.set_colour(op[2])
			elif op[0] == 'set':
				mon.call('set', setattr, style, op[2], op[3])
				expected.set(op[2], op[3])
			elif op[0] == 'reset':
				mon.call('reset', style.reset_colours)
				expected.reset()
			elif op[0] == 'complement':
				mon.call('complement', style.complement, dict(op[2]))
				for k, v in op[2].items():
					expected.set(k, v)
			elif op[0] == 'copy':
				function = {
					'copy': lambda: style.copy(), 'deepcopy': lambda: copy.deepcopy(style),
					'pickle': lambda: pickle.loads(pickle.dumps(style)), 'copy.copy': lambda: copy.copy(style)
				}[op[2]]
				other, _ = mon.call('copy', function)
				mon.check('copy', type(other) is cls and other is not style, lambda: f'{op[2]} gave {other!r}')
				mon.equal('copy', other.get_graphviz_str(), style.get_graphviz_str(), f'{op[2]} of a style')
				if len(family) < 8:
					family.append((other, expected.copy()))
			else:
				before = style.get_graphviz_str()
				inverse, _ = mon.call('invert', style.invert_colours)
				mon.check('inverted', inverse is not style and type(inverse) is cls, 'inverting did not make a new style')
				mon.equal('independent', style.get_graphviz_str(), before, 'the original after the inversion')
				self.inverted(mon, expected, inverse)
				self.compare(mon, [(inverse, expected.inverse())], 'inverted', 'an inverted style')
				if op[0] == 'invert2':
					again, _ = mon.call('invert', inverse.invert_colours)
					self.restored(mon, expected, style, again)
				elif len(family) < 8:
					family.append((inverse, expected.inverse()))
			self.compare(mon, family, 'independent' if len(family) > 1 else 'prints', f'after {op[0]}')
			mon.state((edge, [sorted(e.printed().items()) for _, e in family]))

	def compare(self, mon, family, clause, what):
		for style, expected in family:
			got, want = read(style), expected.printed()
			for k in set(got) | set(want):
				if k in want and k in got:
					if k == 'fontcolor' and expected.rounded and not expected.edge and 'text_colour' in expected.derived and got[k] != want[k]:
						# black and white are about as far from the fill
						mon.check(clause, got[k][1:7] in ('000000', 'ffffff') and abs(lightness(got['fillcolor']) - 0.5) < 0.15, lambda: f'{what}: {k} is printed as {got[k]!r} on {got["fillcolor"]}, expected {want[k]!r}')
						continue
					mon.check(clause, got[k] == want[k] or (got[k].startswith('#') and close(got[k], want[k], 4 if expected.rounded else 1)), lambda: f'{what}: {k} is printed as {got[k]!r}, expected {want[k]!r}')
				elif k in want or k in ('color', 'fillcolor', 'fontcolor'):
					mon.check(clause, False, lambda: f'{what}: {k} is printed as {got.get(k)!r}, expected {want.get(k)!r}')

	def relations(self, mon, style, args, edge):
		got = read(style)
		keys = EDGE_KEYS if edge else NODE_KEYS
		opacity = args.get('opacity', 1 if edge else None)
		for k, v in args.items():
			if k not in keys or v is None:
				continue
			want = Colour(v).get_hexadecimal(opacity=opacity) if 'colour' in k else str(v)
			if 'colour' in k and v.startswith('#') and len(v) == 7:
				mon.equal('explicit', got.get(keys[k], '')[:7], v, f'printed {k}')
			mon.equal('explicit', got.get(keys[k]), want, f'printed {k}')
		if edge:
			return
		main = Colour(Expected(False, args).colour).hexadecimal
		border, fill = got['color'][:7], got['fillcolor'][:7]
		lighter = args.get('lighter_fill', True)
		e = 1.01 / 255
		if args.get('fill_colour') is None:
			good = lightness(fill) >= lightness(main) - e if lighter else lightness(fill) <= lightness(main) + e
			strict = lightness(main) > 0.98 if lighter else lightness(main) < 0.02
			mon.check('derived', good and (strict or fill != main), lambda: f'fill {fill} derived from {main}, lighter_fill={lighter}')
		if args.get('border_colour') is None:
			good = lightness(border) <= lightness(main) + e if lighter else lightness(border) >= lightness(main) - e
			strict = lightness(main) < 0.02 if lighter else lightness(main) > 0.98
			mon.check('derived', good and (strict or border != main), lambda: f'border {border} derived from {main}, lighter_fill={lighter}')
		if args.get('text_colour') is None:
			text = got['fontcolor'][:7]
			mon.check('contrast', text in ('#000000', '#ffffff'), lambda: f'text colour {text} derived')
			if lightness(fill) < 0.4 and luminance(fill) < 0.4:
				mon.equal('contrast', text, '#ffffff', f'text on {fill}')
			if lightness(fill) > 0.6 and luminance(fill) > 0.6:
				mon.equal('contrast', text, '#000000', f'text on {fill}')

	def inverted(self, mon, expected, inverse):
		got = read(inverse)
		want = expected.printed()
		keys = EDGE_KEYS if expected.edge else NODE_KEYS
		for k in expected.colours:
			mon.check('inverted', close(got[keys[k]], complement(want[keys[k]])), lambda: f'explicit {k} {want[keys[k]]} was inverted to {got[keys[k]]}')
		if expected.edge:
			mon.check('inverted', close(got['color'], complement(want['color'])), lambda: f'colour {want["color"]} was inverted to {got["color"]}')
		for k in expected.plain:
			if k in keys and k != 'opacity' and expected.plain[k] is not None:
				mon.equal('inverted', got[keys[k]], str(expected.plain[k]), f'{k} after the inversion')

	def restored(self, mon, expected, style, again):
		got, want = read(again), expected.printed()
		keys = EDGE_KEYS if expected.edge else NODE_KEYS
		for k in list(expected.colours) + (['colour'] if expected.edge else []):
			mon.check('restored', close(got[keys[k]], want[keys[k]]), lambda: f'{k} {want[keys[k]]} became {got[keys[k]]} after two inversions')
		mon.check('restored', True)

	def fingerprint(self, case, mon):
		if not any(op[0] in ('copy', 'invert', 'invert2') for op in case['ops']):
			return None
		return super().fingerprint(case, mon)


PROP = C21()
